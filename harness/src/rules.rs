//! P11 validity of scripts, P12 validity of creates and mints.
use crate::ids::feed;
use crate::sym;
use crate::val::*;
use fuel_tx::*;

const BASE: B = [0; 32];
type P = ConsensusParameters;

fn asset_of(i: &SIn) -> Option<&B> {
    match i.k {
        COIN | COINP => Some(&i.asset),
        MSG | MSGP => Some(&BASE),
        _ => None,
    }
}
fn comes_in(s: &STx, a: &B) -> bool {
    any(s.ins.iter().filter_map(asset_of).map(|x| sym::eq(x, a)))
}
/// at least one and at least two, as terms
fn any(i: impl Iterator<Item = bool>) -> bool {
    i.fold(false, |r, c| r | c)
}
fn several(i: impl Iterator<Item = bool>) -> bool {
    i.fold((false, false), |(one, two), c| (one | c, two | (one & c))).1
}
/// is the rule that `e` names broken by the element `e` names?
fn broken(s: &STx, e: &CheckError, h: u64, p: &P) -> bool {
    let pred = |i: &SIn| i.k == COINP || i.k == MSGP;
    let out = |i: usize, k: u8| i < s.outs.len() && s.outs[i].k == k;
    let code = s.wits.iter().enumerate().fold((false, 0u64), |(f, n), (i, w)| {
        let hit = s.bwi as usize == i;
        (f | hit, sym::ite(hit, w.len() as u64, n))
    });
    match e {
        CheckError::TransactionGasLimit => s.gas_limit > p.max_gas_per_tx,
        CheckError::TransactionMaturity => s.maturity > h,
        CheckError::TransactionInputsMax => s.ins.len() as u64 > p.max_inputs,
        CheckError::TransactionOutputsMax => s.outs.len() as u64 > p.max_outputs,
        CheckError::TransactionWitnessesMax => s.wits.len() as u64 > p.max_witnesses,
        CheckError::TransactionOutputChangeAssetIdDuplicated(a) => several(s.outs.iter().filter(|o| o.k == OCHANGE).map(|o| sym::eq(&o.b, &a[..]))),
        CheckError::DuplicateInputUtxoId { utxo_id } => {
            let u = SIn::from(&Input::contract(*utxo_id, Default::default(), Default::default(), Default::default(), Default::default()));
            several(s.ins.iter().filter(|i| i.k == COIN || i.k == COINP).map(|i| sym::eq(&i.utxo, &u.utxo) & (i.oi == u.oi)))
        }
        CheckError::DuplicateInputContractId { contract_id } => several(s.ins.iter().filter(|i| i.k == CONTRACT).map(|i| sym::eq(&i.cid, &contract_id[..]))),
        CheckError::DuplicateMessageInputId { message_id } => several(s.ins.iter().filter(|i| i.k == MSG || i.k == MSGP).map(|i| sym::eq(&i.mid, &message_id[..]))),
        CheckError::InputPredicateEmpty { index } => *index < s.ins.len() && pred(&s.ins[*index]) && s.ins[*index].pred.is_empty(),
        CheckError::InputPredicateLength { index } => *index < s.ins.len() && pred(&s.ins[*index]) && s.ins[*index].pred.len() as u64 > p.max_predicate_length,
        CheckError::InputPredicateDataLength { index } => *index < s.ins.len() && pred(&s.ins[*index]) && s.ins[*index].pdata.len() as u64 > p.max_predicate_data_length,
        CheckError::InputWitnessIndexBounds { index } => *index < s.ins.len() && (s.ins[*index].k == COIN || s.ins[*index].k == MSG) && s.ins[*index].wi as usize >= s.wits.len(),
        CheckError::InputMessageDataLength { index } => *index < s.ins.len() && (s.ins[*index].k == MSG || s.ins[*index].k == MSGP) && s.ins[*index].data.len() as u64 > p.max_message_data_length,
        CheckError::InputContractAssociatedOutputContract { index } => *index < s.ins.len() && s.ins[*index].k == CONTRACT && { let v = || s.outs.iter().filter(|o| o.k == OCONTRACT).map(|o| o.idx as usize == *index); !any(v()) | several(v()) },
        CheckError::OutputContractInputIndex { index } => out(*index, OCONTRACT) && !any(s.ins.iter().enumerate().filter(|x| x.1.k == CONTRACT).map(|x| x.0 == s.outs[*index].idx as usize)),
        CheckError::TransactionOutputChangeAssetIdNotFound(a) => !comes_in(s, a) & (any(s.outs.iter().filter(|o| o.k == OCHANGE).map(|o| sym::eq(&o.b, &a[..])))),
        CheckError::TransactionOutputCoinAssetIdNotFound(a) => !comes_in(s, a) & (any(s.outs.iter().filter(|o| o.k == OCOIN).map(|o| sym::eq(&o.b, &a[..])))),
        // scripts
        CheckError::TransactionScriptLength => !s.create && s.script.len() as u64 > p.max_script_length,
        CheckError::TransactionScriptDataLength => !s.create && s.sdata.len() as u64 > p.max_script_data_length,
        CheckError::TransactionScriptOutputContractCreated { index } => !s.create && out(*index, OCREATED),
        // creates
        CheckError::TransactionCreateBytecodeWitnessIndex => s.create && !code.0,
        CheckError::TransactionCreateBytecodeLen => s.create && code.0 & ((code.1 > p.contract_max_size) | (code.1 / 4 != s.blen)),
        CheckError::TransactionCreateStorageSlotMax => s.create && s.slots.len() as u64 > p.max_storage_slots,
        CheckError::TransactionCreateStorageSlotOrder => s.create && s.slots.windows(2).fold(false, |r, w| r | above(&w[0].0, &w[1].0)),
        CheckError::TransactionCreateInputContract { index } => s.create && *index < s.ins.len() && s.ins[*index].k == CONTRACT,
        CheckError::TransactionCreateOutputContract { index } => s.create && out(*index, OCONTRACT),
        CheckError::TransactionCreateOutputVariable { index } => s.create && out(*index, OVAR),
        CheckError::TransactionCreateOutputChangeNotBaseAsset { index } => s.create && out(*index, OCHANGE) && !sym::eq(&s.outs[*index].b, &BASE),
        CheckError::TransactionCreateOutputContractCreatedMultiple { index } => s.create && out(*index, OCREATED) && s.outs[..*index].iter().any(|o| o.k == OCREATED),
        _ => false,
    }
}
/// a > b, as one term
fn above(a: &B, b: &B) -> bool {
    let word = |x: &B, i: usize| u64::from_be_bytes([x[i], x[i + 1], x[i + 2], x[i + 3], x[i + 4], x[i + 5], x[i + 6], x[i + 7]]);
    let mut r = false;
    for i in [24, 16, 8, 0] {
        let (x, y) = (word(a, i), word(b, i));
        r = (x > y) | ((x == y) & r);
    }
    r
}
/// every refusal that could be due
fn candidates(s: &STx) -> Vec<CheckError> {
    use CheckError::*;
    let mut v = vec![
        TransactionGasLimit, TransactionMaturity, TransactionInputsMax, TransactionOutputsMax, TransactionWitnessesMax, TransactionScriptLength, TransactionScriptDataLength,
        TransactionCreateBytecodeWitnessIndex, TransactionCreateBytecodeLen, TransactionCreateStorageSlotMax, TransactionCreateStorageSlotOrder,
    ];
    for (index, i) in s.ins.iter().enumerate() {
        match i.k {
            COIN | COINP => v.push(DuplicateInputUtxoId { utxo_id: UtxoId::new(i.utxo.into(), i.oi) }),
            CONTRACT => {
                v.push(DuplicateInputContractId { contract_id: i.cid.into() });
                v.push(InputContractAssociatedOutputContract { index });
                v.push(TransactionCreateInputContract { index });
            }
            _ => {
                v.push(DuplicateMessageInputId { message_id: i.mid.into() });
                v.push(InputMessageDataLength { index });
            }
        }
        if i.k == COIN || i.k == MSG {
            v.push(InputWitnessIndexBounds { index });
        }
        if i.k == COINP || i.k == MSGP {
            v.extend([InputPredicateEmpty { index }, InputPredicateLength { index }, InputPredicateDataLength { index }]);
        }
    }
    for (index, o) in s.outs.iter().enumerate() {
        match o.k {
            OCOIN => v.push(TransactionOutputCoinAssetIdNotFound(o.b.into())),
            OCONTRACT => v.extend([OutputContractInputIndex { index }, TransactionCreateOutputContract { index }]),
            OCHANGE => v.extend([TransactionOutputChangeAssetIdNotFound(o.b.into()), TransactionOutputChangeAssetIdDuplicated(o.b.into()), TransactionCreateOutputChangeNotBaseAsset { index }]),
            OVAR => v.push(TransactionCreateOutputVariable { index }),
            OCREATED => v.extend([TransactionScriptOutputContractCreated { index }, TransactionCreateOutputContractCreatedMultiple { index }]),
            _ => (),
        }
    }
    v
}
fn label(e: &CheckError) -> &'static str {
    use CheckError::*;
    match e {
        TransactionGasLimit => "gas limit",
        TransactionMaturity => "maturity",
        TransactionInputsMax => "inputs",
        TransactionOutputsMax => "outputs",
        TransactionWitnessesMax => "witnesses",
        TransactionOutputChangeAssetIdDuplicated(_) => "change twice",
        DuplicateInputUtxoId { .. } => "utxo twice",
        DuplicateInputContractId { .. } => "contract twice",
        DuplicateMessageInputId { .. } => "message twice",
        InputPredicateEmpty { .. } => "predicate empty",
        InputPredicateLength { .. } => "predicate length",
        InputPredicateDataLength { .. } => "predicate data length",
        InputWitnessIndexBounds { .. } => "witness index",
        InputMessageDataLength { .. } => "message data length",
        InputContractAssociatedOutputContract { .. } => "contract without its output",
        OutputContractInputIndex { .. } => "contract output without input",
        TransactionOutputChangeAssetIdNotFound(_) => "change of an asset that does not come in",
        TransactionOutputCoinAssetIdNotFound(_) => "coin of an asset that does not come in",
        TransactionScriptLength => "script length",
        TransactionScriptDataLength => "script data length",
        TransactionScriptOutputContractCreated { .. } => "script creates",
        TransactionCreateBytecodeWitnessIndex => "bytecode index",
        TransactionCreateBytecodeLen => "bytecode length",
        TransactionCreateStorageSlotMax => "slots",
        TransactionCreateStorageSlotOrder => "slot order",
        TransactionCreateInputContract { .. } => "create with contract input",
        TransactionCreateOutputContract { .. } => "create with contract output",
        TransactionCreateOutputVariable { .. } => "create with variable output",
        TransactionCreateOutputChangeNotBaseAsset { .. } => "create with change",
        TransactionCreateOutputContractCreatedMultiple { .. } => "created twice",
        TransactionMintOutputIsNotCoin => "mint of something else",
        TransactionMintIncorrectBlockHeight => "mint elsewhere",
        TransactionOutputCoinAssetIdDuplicated(_) => "coin twice",
        _ => "other",
    }
}
fn judged(s: &STx, h: u64, p: &P) {
    // many elements: the wrapped transaction only, in the quick tier
    let big = s.ins.len() + s.outs.len() + s.slots.len() > 100 && !sym::thorough();
    let r = match (s.create, big || sym::choose(0, 1) == 1) {
        (_, true) => s.tx().check_without_signatures(h, p),
        (true, _) => s.create_tx().check_without_signatures(h, p),
        (false, _) => s.script_tx().check_without_signatures(h, p),
    };
    match r {
        Ok(()) => {
            for e in candidates(s) {
                sym::check(!broken(s, &e, h, p), "what is accepted obeys every rule");
            }
            sym::reach("accepted");
        }
        Err(e) => {
            sym::check(broken(s, &e, h, p), "a refusal names a rule and an element that is broken");
            sym::reach(label(&e));
        }
    }
}
fn wide() -> P {
    P::DEFAULT.with_max_gas_per_tx(u64::MAX)
}
fn some_limits() -> P {
    wide()
        .with_max_gas_per_tx(sym::u64())
        .with_max_inputs(sym::u64())
        .with_max_outputs(sym::u64())
        .with_max_witnesses(sym::u64())
        .with_max_script_length(sym::u64())
        .with_max_script_data_length(sym::u64())
        .with_max_predicate_length(sym::u64())
        .with_max_predicate_data_length(sym::u64())
        .with_max_message_data_length(sym::u64())
        .with_max_storage_slots(sym::u64())
        .with_contract_max_size(sym::u64())
}
fn base(create: bool) -> STx {
    let mut s = STx { create, ..Default::default() };
    if create {
        s.wits.push(vec![1, 2, 3, 4]);
        s.blen = 1;
    }
    s
}
/// an input without anything to complain about, the `n`th
fn fine(k: u8, n: usize) -> SIn {
    let mut i = SIn { k, ..Default::default() };
    for (a, at) in [(&mut i.utxo, 0), (&mut i.mid, 1), (&mut i.cid, 2)] {
        a[at] = (n as u8).wrapping_add(1);
        a[at + 1] = (n >> 8) as u8;
    }
    if k == COINP || k == MSGP {
        i.pred = vec![1];
    }
    i
}
/// limits of the transaction as a whole
fn limits(create: bool) {
    let mut s = base(create);
    s.gas_limit = sym::u64();
    s.gas_price = sym::u64();
    s.maturity = sym::u64();
    for i in 0..sym::choose(0, 2) as usize {
        s.ins.push(fine(COINP, i));
    }
    for _ in 0..sym::choose(0, 2) {
        s.outs.push(SOut::any(OMSG));
    }
    for _ in 0..sym::choose(0, 2) {
        s.wits.push(bytes(1));
    }
    if !create {
        s.script = bytes(sym::choose(0, 2));
        s.sdata = bytes(sym::choose(0, 2));
    }
    judged(&s, sym::u64(), &some_limits());
}
fn assets(s: &mut STx, create: bool, outs: u64) {
    for i in 0..sym::choose(0, 2) as usize {
        let mut x = fine([COIN, COINP, MSGP, CONTRACT][sym::choose(0, if create { 2 } else { 3 }) as usize], i);
        if x.k == COIN || x.k == COINP {
            sym::fill(&mut x.asset)
        }
        if x.k == CONTRACT {
            s.outs.push(SOut { k: OCONTRACT, idx: i as u8, ..Default::default() });
        }
        s.ins.push(x);
    }
    s.wits.push(vec![1, 2, 3, 4]);
    for _ in 0..sym::choose(1, outs) {
        let k = [OCHANGE, OCOIN][sym::choose(0, 1) as usize];
        s.outs.push(SOut::any(k));
    }
}
fn input_rules(create: bool, n: u64) {
    let mut s = base(create);
    let n = sym::choose(1, n) as usize;
    for i in 0..n {
        let mut x = fine(sym::choose(0, 4) as u8, i);
        x.wi = sym::u8();
        match x.k {
            COINP | MSGP => {
                x.pred = bytes(sym::choose(0, 2));
                x.pdata = bytes(sym::choose(0, 2));
            }
            _ => (),
        }
        if x.k == MSG || x.k == MSGP {
            x.data = bytes(sym::choose(0, 2));
        }
        s.ins.push(x);
    }
    for _ in 0..sym::choose(0, 2) {
        s.wits.push(bytes(1));
    }
    let p = wide().with_max_predicate_length(sym::u64()).with_max_predicate_data_length(sym::u64()).with_max_message_data_length(sym::u64());
    judged(&s, 0, &p);
}
fn contracts(create: bool) {
    let mut s = base(create);
    for i in 0..sym::choose(0, 3) as usize {
        let mut x = fine([CONTRACT, COIN][sym::choose(0, 1) as usize], i);
        if x.k == CONTRACT {
            sym::fill(&mut x.utxo);
        }
        s.ins.push(x);
    }
    s.wits.push(bytes(1));
    for _ in 0..sym::choose(0, 3) {
        let mut o = SOut::any(OCONTRACT);
        o.idx = sym::u8();
        s.outs.push(o);
    }
    judged(&s, 0, &wide());
}
fn twice(create: bool) {
    let mut s = base(create);
    let n = sym::choose(2, 3) as usize;
    for i in 0..n {
        let mut x = fine(sym::choose(0, 4) as u8, i);
        match x.k {
            COIN | COINP => {
                sym::fill(&mut x.utxo);
                x.oi = sym::u8();
            }
            CONTRACT => {
                sym::fill(&mut x.utxo);
                sym::fill(&mut x.cid);
                s.outs.push(SOut { k: OCONTRACT, idx: i as u8, ..Default::default() });
            }
            _ => sym::fill(&mut x.mid),
        }
        s.ins.push(x);
    }
    s.wits.push(vec![1, 2, 3, 4]);
    judged(&s, 0, &wide());
}
/// kinds of outputs, in every position
fn kinds(create: bool) {
    let mut s = base(create);
    s.ins.push(fine(COIN, 0));
    s.wits.push(vec![1, 2, 3, 4]);
    if !create || sym::choose(0, 1) == 1 {
        s.ins.push(fine(CONTRACT, 1));
    }
    for _ in 0..sym::choose(1, 3) {
        let mut o = SOut::any(sym::choose(0, 5) as u8);
        if o.k == OCONTRACT {
            o.idx = 1;
        }
        if o.k == OCOIN || o.k == OCHANGE {
            o.b = [0; 32];
            o.b[31] = sym::u8();
        }
        s.outs.push(o);
    }
    judged(&s, 0, &wide());
}
/// more elements than a byte counts, against limits of any size
fn crowds(create: bool) {
    let mut s = base(create);
    let n = sym::choose(254, 258) as usize;
    match sym::choose(0, 3) {
        0 => (0..n).for_each(|i| s.ins.push(fine([COINP, MSGP, COIN][i % 3], i))),
        1 => (0..n).for_each(|i| s.outs.push(SOut { k: [OMSG, OCOIN, OVAR][i % if create { 2 } else { 3 }], ..Default::default() })),
        2 => s.wits.resize(n, vec![1, 2, 3, 4]),
        _ if create => (0..n).for_each(|i| {
            let mut k = [0; 32];
            k[30..].copy_from_slice(&(i as u16).to_be_bytes());
            s.slots.push((k, [0; 32]));
        }),
        _ => (),
    }
    s.ins.push(fine(COINP, 300));
    if s.wits.is_empty() {
        s.wits.push(vec![]);
    }
    let p = wide().with_max_inputs(sym::u64()).with_max_outputs(sym::u64()).with_max_witnesses(sym::u64()).with_max_storage_slots(sym::u64());
    judged(&s, 0, &p);
}
fn roomy() -> P {
    wide().with_max_inputs(1000).with_max_outputs(1000).with_max_witnesses(1000).with_max_storage_slots(1000)
}
/// among many inputs, one whose identifier may be that of any other
fn twice_among_many(create: bool) {
    let mut s = base(create);
    let n = sym::bound(257, 300) as usize;
    let at = [0, 130, n - 1][sym::choose(0, 2) as usize];
    let mine = [COIN, COINP, MSG, MSGP, CONTRACT][sym::choose(0, if create { 3 } else { 4 }) as usize];
    for i in 0..n {
        let k = match mine {
            COIN | COINP => [COIN, COINP][i % 2],
            MSG | MSGP => [MSG, MSGP][i % 2],
            _ => CONTRACT,
        };
        let mut x = fine(if i == at { mine } else { k }, i);
        // contracts beyond those that an output can name are not valid: leave most of them out
        if mine == CONTRACT && i != at && (i < n - 200 || i >= 250) {
            x = fine(COINP, i);
        }
        if i == at {
            let j = sym::u16();
            for (a, o) in [(&mut x.utxo, 0), (&mut x.mid, 1), (&mut x.cid, 2)] {
                a[o] = (j as u8).wrapping_add(1);
                a[o + 1] = (j >> 8) as u8;
            }
        }
        if x.k == CONTRACT && i < 256 {
            s.outs.push(SOut { k: OCONTRACT, idx: i as u8, ..Default::default() });
        }
        s.ins.push(x);
    }
    s.wits.push(vec![1, 2, 3, 4]);
    judged(&s, 0, &roomy());
}
/// indices at the end of what a byte can name
fn far_indices(create: bool) {
    let mut s = base(create);
    let n = sym::choose(255, 258) as usize;
    if sym::choose(0, 1) == 0 {
        // a witness
        let mut x = fine([COIN, MSG][sym::choose(0, 1) as usize], 0);
        x.wi = sym::u8();
        s.ins.push(x);
        s.wits.resize(n, vec![1, 2, 3, 4]);
        if create {
            s.bwi = sym::u8();
        }
    } else {
        // an input that an output names
        let at = [2, n - 1][sym::choose(0, 1) as usize];
        for i in 0..n {
            s.ins.push(fine(if i == at { CONTRACT } else { COINP }, i));
        }
        s.outs.push(SOut { k: OCONTRACT, idx: sym::u8(), ..Default::default() });
    }
    judged(&s, 0, &roomy());
}
/// byte strings around one and two bytes' range, against limits of any size
fn lengths(create: bool) {
    let n = [255u64, 256, 257, 65535, 65536, 65537, 131072][sym::choose(0, 6) as usize];
    let mut s = base(create);
    let mut x = fine(MSGP, 0);
    let mut y = fine(COINP, 1);
    match sym::choose(0, 6) {
        0 => x.pred = vec![0; n as usize],
        1 => x.pdata = vec![0; n as usize],
        2 => x.data = vec![0; n as usize],
        3 => y.pred = vec![0; n as usize],
        4 => y.pdata = vec![0; n as usize],
        _ if create => {
            s.wits = vec![vec![0; (n + sym::choose(0, 3)) as usize]];
            s.blen = sym::u64();
        }
        5 => s.script = vec![0; n as usize],
        _ => s.sdata = vec![0; n as usize],
    }
    s.ins = vec![x, y];
    judged(&s, 0, &some_limits());
}
fn mint_judged(m: &SMint, h: u64, p: &P) {
    let t = m.to();
    let r = if m.outs.len() == 256 || m.outs.len() < 100 && sym::choose(0, 1) == 1 { Transaction::Mint(t).check_without_signatures(h, p) } else { t.check_without_signatures(h, p) };
    let bad = |e: &CheckError| match e {
        CheckError::TransactionOutputsMax => m.outs.len() as u64 > p.max_outputs,
        CheckError::TransactionMintIncorrectBlockHeight => m.bh as u64 != h,
        CheckError::TransactionMintOutputIsNotCoin => m.outs.iter().any(|o| o.k != OCOIN),
        CheckError::TransactionOutputCoinAssetIdDuplicated(a) => several(m.outs.iter().filter(|o| o.k == OCOIN).map(|o| sym::eq(&o.b, &a[..]))),
        _ => false,
    };
    match r {
        Ok(()) => {
            let mut v = vec![CheckError::TransactionOutputsMax, CheckError::TransactionMintIncorrectBlockHeight, CheckError::TransactionMintOutputIsNotCoin];
            v.extend(m.outs.iter().map(|o| CheckError::TransactionOutputCoinAssetIdDuplicated(o.b.into())));
            for e in v {
                sym::check(!bad(&e), "what is accepted obeys every rule");
            }
            sym::reach("accepted");
        }
        Err(e) => {
            sym::check(bad(&e), "a refusal names a rule and an element that is broken");
            sym::reach(label(&e));
        }
    }
}
fn consistent<T: Clone + PartialEq + std::hash::Hash>(a: T, b: T) {
    if a == b {
        sym::check(sym::eq(&feed(&a), &feed(&b)), "equal values hash alike");
        sym::reach("equal");
    } else {
        sym::reach("different");
    }
}

entries! {
// ---------------------------------------------------------------- P11
p11_limits { limits(false) }
p11_assets {
    let mut s = base(false);
    assets(&mut s, false, sym::bound(2, 3));
    judged(&s, 0, &wide());
}
p11_inputs { input_rules(false, sym::bound(2, 3)) }
p11_contracts { contracts(false) }
p11_twice { twice(false) }
p11_kinds { kinds(false) }
p11_crowds { crowds(false) }
p11_many { twice_among_many(false) }
p11_far { far_indices(false) }
p11_lengths { lengths(false) }
p11_hash {
    // duplicates are found through hash sets: equal identifiers have to hash alike
    match sym::choose(0, 3) {
        0 => consistent(UtxoId::new(sym::arr::<32>().into(), sym::u8()), UtxoId::new(sym::arr::<32>().into(), sym::u8())),
        1 => consistent(fuel_types::ContractId::from(sym::arr::<32>()), sym::arr::<32>().into()),
        2 => consistent(fuel_types::MessageId::from(sym::arr::<32>()), sym::arr::<32>().into()),
        _ => consistent(fuel_types::AssetId::from(sym::arr::<32>()), sym::arr::<32>().into()),
    }
}
// ---------------------------------------------------------------- P12
p12_limits { limits(true) }
p12_assets {
    let mut s = base(true);
    assets(&mut s, true, sym::bound(2, 3));
    judged(&s, 0, &wide());
}
p12_inputs { input_rules(true, sym::bound(1, 2)) }
p12_contracts { contracts(true) }
p12_twice { twice(true) }
p12_kinds { kinds(true) }
p12_crowds { crowds(true) }
p12_many { twice_among_many(true) }
p12_far { far_indices(true) }
p12_lengths { lengths(true) }
p12_order {
    // one key anywhere among many that are in order
    let mut s = base(true);
    let n = 300;
    let at = [0, 1, 150, n - 1][sym::choose(0, 3) as usize];
    for i in 0..n {
        let mut k = [0; 32];
        k[30..].copy_from_slice(&(2 * i as u16).to_be_bytes());
        if i == at {
            sym::fill(&mut k[sym::bound(28, 0) as usize..]);
        }
        s.slots.push((k, [0; 32]));
    }
    judged(&s, 0, &roomy());
}
p12_mints {
    // more outputs than a byte counts; one whose asset may be that of any other
    let n = sym::choose(255, 257) as usize;
    let mut m = SMint { bh: 7, ti: 0, outs: vec![] };
    for i in 0..n {
        let mut o = SOut { k: OCOIN, ..Default::default() };
        o.b[30..].copy_from_slice(&(i as u16).to_be_bytes());
        m.outs.push(o);
    }
    let at = [0, n - 1][sym::choose(0, 1) as usize];
    sym::fill(&mut m.outs[at].b[30..]);
    mint_judged(&m, 7, &wide().with_max_outputs(sym::u64()));
}
p12_code {
    // bytecode
    let mut s = STx { create: true, ..Default::default() };
    s.bwi = sym::u8();
    s.blen = sym::u64();
    for _ in 0..sym::choose(0, 2) {
        s.wits.push(bytes(len(7, 9)));
    }
    judged(&s, 0, &wide().with_contract_max_size(sym::u64()));
}
p12_slots {
    let mut s = base(true);
    for _ in 0..sym::choose(0, 3) {
        s.slots.push((sym::arr(), sym::arr()));
    }
    judged(&s, 0, &wide().with_max_storage_slots(sym::u64()));
}
p12_mint {
    let mut m = SMint { bh: sym::u32(), ti: sym::u16(), outs: vec![] };
    for _ in 0..sym::choose(0, 3) {
        let k = sym::choose(0, 5) as u8;
        let o = if k == OCOIN { SOut::any(k) } else { SOut { k, ..Default::default() } };
        m.outs.push(o);
    }
    mint_judged(&m, sym::u64(), &wide().with_max_outputs(sym::u64()));
}
}

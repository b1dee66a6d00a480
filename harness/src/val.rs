//! Specification side: plain values, an independent encoder written from the Fuel transaction format,
//! conversions to and from the crate's types by public variants and fields only, and field-wise equality.
use crate::sym;
use fuel_tx::field::{BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _, Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _, Witnesses as _};
use fuel_tx::*;

pub type B = [u8; 32];

/// Reference encoder: big-endian words, byte strings zero-padded to a multiple of eight.
#[derive(Default, Clone)]
pub struct Enc {
    pub b: Vec<u8>,
    pub marks: Vec<(&'static str, usize, usize)>,
}
impl Enc {
    pub fn w(&mut self, v: u64) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    pub fn a(&mut self, v: &B) {
        self.b.extend_from_slice(v)
    }
    pub fn raw(&mut self, v: &[u8]) {
        self.b.extend_from_slice(v);
        while self.b.len() % 8 != 0 {
            self.b.push(0);
        }
    }
    pub fn m(&mut self, n: &'static str, i: usize) {
        self.marks.push((n, i, self.b.len()))
    }
    pub fn at(&self, n: &str, i: usize) -> usize {
        for (a, j, p) in &self.marks {
            if *a == n && *j == i {
                return *p;
            }
        }
        panic!("harness: no such mark")
    }
    pub fn find(&self, n: &str, i: usize) -> Option<usize> {
        for (a, j, p) in &self.marks {
            if *a == n && *j == i {
                return Some(*p);
            }
        }
        None
    }
}
pub fn pad(n: usize) -> usize {
    (n + 7) / 8 * 8
}
pub fn bytes(n: u64) -> Vec<u8> {
    let mut v = vec![0u8; n as usize];
    sym::fill(&mut v);
    v
}

pub const COIN: u8 = 0;
pub const COINP: u8 = 1;
pub const CONTRACT: u8 = 2;
pub const MSG: u8 = 3;
pub const MSGP: u8 = 4;

#[derive(Clone, Default)]
pub struct SIn {
    pub k: u8,
    pub utxo: B,
    pub oi: u8,
    pub owner: B,
    pub recipient: B,
    pub amount: u64,
    pub asset: B,
    pub bh: u32,
    pub ti: u16,
    pub wi: u8,
    pub maturity: u64,
    pub bal: B,
    pub st: B,
    pub cid: B,
    pub mid: B,
    pub nonce: u64,
    pub data: Vec<u8>,
    pub pred: Vec<u8>,
    pub pdata: Vec<u8>,
}

impl SIn {
    /// every scalar symbolic; `d`, `p`, `q` are the lengths of data, predicate and predicate data
    pub fn any(k: u8, d: u64, p: u64, q: u64) -> SIn {
        let mut s = SIn { k, ..Default::default() };
        if k == COIN || k == COINP || k == CONTRACT {
            sym::fill(&mut s.utxo);
            s.oi = sym::u8();
            s.bh = sym::u32();
            s.ti = sym::u16();
        }
        match k {
            COIN | COINP => {
                sym::fill(&mut s.owner);
                s.amount = sym::u64();
                sym::fill(&mut s.asset);
                s.maturity = sym::u64();
            }
            CONTRACT => {
                sym::fill(&mut s.bal);
                sym::fill(&mut s.st);
                sym::fill(&mut s.cid);
            }
            _ => {
                sym::fill(&mut s.mid);
                sym::fill(&mut s.owner);
                sym::fill(&mut s.recipient);
                s.amount = sym::u64();
                s.nonce = sym::u64();
                s.data = bytes(d);
            }
        }
        if k == COIN || k == MSG {
            s.wi = sym::u8();
        }
        if k == COINP || k == MSGP {
            s.pred = bytes(p);
            s.pdata = bytes(q);
        }
        s
    }
    pub fn to(&self) -> Input {
        let utxo_id = UtxoId::new(self.utxo.into(), self.oi);
        let tx_pointer = TxPointer::new(self.bh, self.ti);
        match self.k {
            COIN => Input::CoinSigned { utxo_id, owner: self.owner.into(), amount: self.amount, asset_id: self.asset.into(), tx_pointer, witness_index: self.wi, maturity: self.maturity },
            COINP => Input::CoinPredicate { utxo_id, owner: self.owner.into(), amount: self.amount, asset_id: self.asset.into(), tx_pointer, maturity: self.maturity, predicate: self.pred.clone(), predicate_data: self.pdata.clone() },
            CONTRACT => Input::Contract { utxo_id, balance_root: self.bal.into(), state_root: self.st.into(), tx_pointer, contract_id: self.cid.into() },
            MSG => Input::MessageSigned { message_id: self.mid.into(), sender: self.owner.into(), recipient: self.recipient.into(), amount: self.amount, nonce: self.nonce, witness_index: self.wi, data: self.data.clone() },
            _ => Input::MessagePredicate { message_id: self.mid.into(), sender: self.owner.into(), recipient: self.recipient.into(), amount: self.amount, nonce: self.nonce, data: self.data.clone(), predicate: self.pred.clone(), predicate_data: self.pdata.clone() },
        }
    }
    pub fn from(i: &Input) -> SIn {
        let mut s = SIn::default();
        let up = |s: &mut SIn, u: &UtxoId, t: &TxPointer| {
            s.utxo = **u.tx_id();
            s.oi = u.output_index();
            s.bh = t.block_height();
            s.ti = t.tx_index();
        };
        match i {
            Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => {
                s.k = COIN;
                up(&mut s, utxo_id, tx_pointer);
                s.owner = **owner;
                s.amount = *amount;
                s.asset = **asset_id;
                s.wi = *witness_index;
                s.maturity = *maturity;
            }
            Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => {
                s.k = COINP;
                up(&mut s, utxo_id, tx_pointer);
                s.owner = **owner;
                s.amount = *amount;
                s.asset = **asset_id;
                s.maturity = *maturity;
                s.pred = predicate.clone();
                s.pdata = predicate_data.clone();
            }
            Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => {
                s.k = CONTRACT;
                up(&mut s, utxo_id, tx_pointer);
                s.bal = **balance_root;
                s.st = **state_root;
                s.cid = **contract_id;
            }
            Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => {
                s.k = MSG;
                s.mid = **message_id;
                s.owner = **sender;
                s.recipient = **recipient;
                s.amount = *amount;
                s.nonce = *nonce;
                s.wi = *witness_index;
                s.data = data.clone();
            }
            Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => {
                s.k = MSGP;
                s.mid = **message_id;
                s.owner = **sender;
                s.recipient = **recipient;
                s.amount = *amount;
                s.nonce = *nonce;
                s.data = data.clone();
                s.pred = predicate.clone();
                s.pdata = predicate_data.clone();
            }
        }
        s
    }
    pub fn same(&self, o: &SIn) -> bool {
        self.k == o.k
            && sym::eq(&self.utxo, &o.utxo)
                & (self.oi == o.oi)
                & sym::eq(&self.owner, &o.owner)
                & sym::eq(&self.recipient, &o.recipient)
                & (self.amount == o.amount)
                & sym::eq(&self.asset, &o.asset)
                & (self.bh == o.bh)
                & (self.ti == o.ti)
                & (self.wi == o.wi)
                & (self.maturity == o.maturity)
                & sym::eq(&self.bal, &o.bal)
                & sym::eq(&self.st, &o.st)
                & sym::eq(&self.cid, &o.cid)
                & sym::eq(&self.mid, &o.mid)
                & (self.nonce == o.nonce)
                & sym::eq(&self.data, &o.data)
                & sym::eq(&self.pred, &o.pred)
                & sym::eq(&self.pdata, &o.pdata)
    }
    pub fn enc(&self, e: &mut Enc) {
        let base = e.marks.len();
        let _ = base;
        match self.k {
            COIN | COINP => {
                e.w(0);
                e.m("utxo_id", 0);
                e.a(&self.utxo);
                e.w(self.oi as u64);
                e.m("owner", 0);
                e.a(&self.owner);
                e.w(self.amount);
                e.m("asset_id", 0);
                e.a(&self.asset);
                e.m("tx_pointer", 0);
                e.w(self.bh as u64);
                e.w(self.ti as u64);
                e.w(self.wi as u64);
                e.w(self.maturity);
                e.w(self.pred.len() as u64);
                e.w(self.pdata.len() as u64);
                e.m("predicate", 0);
                e.raw(&self.pred);
                e.m("predicate_data", 0);
                e.raw(&self.pdata);
            }
            CONTRACT => {
                e.w(1);
                e.m("utxo_id", 0);
                e.a(&self.utxo);
                e.w(self.oi as u64);
                e.m("balance_root", 0);
                e.a(&self.bal);
                e.m("state_root", 0);
                e.a(&self.st);
                e.m("tx_pointer", 0);
                e.w(self.bh as u64);
                e.w(self.ti as u64);
                e.m("contract_id", 0);
                e.a(&self.cid);
            }
            _ => {
                e.w(2);
                e.m("message_id", 0);
                e.a(&self.mid);
                e.m("sender", 0);
                e.a(&self.owner);
                e.m("recipient", 0);
                e.a(&self.recipient);
                e.w(self.amount);
                e.w(self.nonce);
                e.w(self.wi as u64);
                e.w(self.data.len() as u64);
                e.w(self.pred.len() as u64);
                e.w(self.pdata.len() as u64);
                e.m("data", 0);
                e.raw(&self.data);
                e.m("predicate", 0);
                e.raw(&self.pred);
                e.m("predicate_data", 0);
                e.raw(&self.pdata);
            }
        }
    }
    pub fn encoded(&self) -> Enc {
        let mut e = Enc::default();
        self.enc(&mut e);
        e
    }
    /// what signing commits to: references the block producer may rewrite are zero
    pub fn stripped(&self) -> SIn {
        let mut s = self.clone();
        if self.k == COIN || self.k == COINP || self.k == CONTRACT {
            s.bh = 0;
            s.ti = 0;
        }
        if self.k == CONTRACT {
            s.utxo = [0; 32];
            s.oi = 0;
            s.bal = [0; 32];
            s.st = [0; 32];
        }
        s
    }
}

pub const OCOIN: u8 = 0;
pub const OCONTRACT: u8 = 1;
pub const OMSG: u8 = 2;
pub const OCHANGE: u8 = 3;
pub const OVAR: u8 = 4;
pub const OCREATED: u8 = 5;

/// coin/change/variable: a = to, b = asset; contract: idx, a = balance root, b = state root;
/// message: a = recipient; created: a = contract id, b = state root
#[derive(Clone, Copy, Default)]
pub struct SOut {
    pub k: u8,
    pub a: B,
    pub b: B,
    pub amount: u64,
    pub idx: u8,
}
impl SOut {
    pub fn any(k: u8) -> SOut {
        let mut s = SOut { k, ..Default::default() };
        sym::fill(&mut s.a);
        if k != OMSG {
            sym::fill(&mut s.b);
        }
        match k {
            OCONTRACT => s.idx = sym::u8(),
            OCREATED => (),
            _ => s.amount = sym::u64(),
        }
        s
    }
    pub fn to(&self) -> Output {
        let (to, amount, asset_id) = (self.a.into(), self.amount, self.b.into());
        match self.k {
            OCOIN => Output::Coin { to, amount, asset_id },
            OCONTRACT => Output::Contract { input_index: self.idx, balance_root: self.a.into(), state_root: self.b.into() },
            OMSG => Output::Message { recipient: to, amount },
            OCHANGE => Output::Change { to, amount, asset_id },
            OVAR => Output::Variable { to, amount, asset_id },
            _ => Output::ContractCreated { contract_id: self.a.into(), state_root: self.b.into() },
        }
    }
    pub fn from(o: &Output) -> SOut {
        let mut s = SOut::default();
        match o {
            Output::Coin { to, amount, asset_id } | Output::Change { to, amount, asset_id } | Output::Variable { to, amount, asset_id } => {
                s.k = match o {
                    Output::Coin { .. } => OCOIN,
                    Output::Change { .. } => OCHANGE,
                    _ => OVAR,
                };
                s.a = **to;
                s.b = **asset_id;
                s.amount = *amount;
            }
            Output::Contract { input_index, balance_root, state_root } => {
                s.k = OCONTRACT;
                s.idx = *input_index;
                s.a = **balance_root;
                s.b = **state_root;
            }
            Output::Message { recipient, amount } => {
                s.k = OMSG;
                s.a = **recipient;
                s.amount = *amount;
            }
            Output::ContractCreated { contract_id, state_root } => {
                s.k = OCREATED;
                s.a = **contract_id;
                s.b = **state_root;
            }
        }
        s
    }
    pub fn same(&self, o: &SOut) -> bool {
        self.k == o.k && sym::eq(&self.a, &o.a) & sym::eq(&self.b, &o.b) & (self.amount == o.amount) & (self.idx == o.idx)
    }
    pub fn enc(&self, e: &mut Enc) {
        e.w(self.k as u64);
        match self.k {
            OCONTRACT => {
                e.w(self.idx as u64);
                e.m("balance_root", 0);
                e.a(&self.a);
                e.m("state_root", 0);
                e.a(&self.b);
            }
            OMSG => {
                e.m("recipient", 0);
                e.a(&self.a);
                e.w(self.amount);
            }
            OCREATED => {
                e.m("contract_id", 0);
                e.a(&self.a);
                e.m("state_root", 0);
                e.a(&self.b);
            }
            _ => {
                e.m("to", 0);
                e.a(&self.a);
                e.w(self.amount);
                e.m("asset_id", 0);
                e.a(&self.b);
            }
        }
    }
    pub fn encoded(&self) -> Enc {
        let mut e = Enc::default();
        self.enc(&mut e);
        e
    }
    pub fn stripped(&self) -> SOut {
        let mut s = *self;
        match self.k {
            OCONTRACT => {
                s.a = [0; 32];
                s.b = [0; 32];
            }
            OMSG => {
                s.a = [0; 32];
                s.amount = 0;
            }
            OCHANGE => s.amount = 0,
            OVAR => {
                s.a = [0; 32];
                s.b = [0; 32];
                s.amount = 0;
            }
            _ => (),
        }
        s
    }
}

/// Script and Create; which fields matter depends on `create`
#[derive(Clone, Default)]
pub struct STx {
    pub create: bool,
    pub gas_price: u64,
    pub gas_limit: u64,
    pub maturity: u64,
    pub root: B,
    pub script: Vec<u8>,
    pub sdata: Vec<u8>,
    pub blen: u64,
    pub bwi: u8,
    pub salt: B,
    pub slots: Vec<(B, B)>,
    pub ins: Vec<SIn>,
    pub outs: Vec<SOut>,
    pub wits: Vec<Vec<u8>>,
}
impl STx {
    /// scalars symbolic, collections empty
    pub fn any(create: bool) -> STx {
        let mut s = STx { create, ..Default::default() };
        s.gas_price = sym::u64();
        s.gas_limit = sym::u64();
        s.maturity = sym::u64();
        if create {
            s.blen = sym::u64();
            s.bwi = sym::u8();
            sym::fill(&mut s.salt);
        } else {
            sym::fill(&mut s.root);
        }
        s
    }
    pub fn inputs(&self) -> Vec<Input> {
        self.ins.iter().map(|i| i.to()).collect()
    }
    pub fn outputs(&self) -> Vec<Output> {
        self.outs.iter().map(|i| i.to()).collect()
    }
    pub fn witnesses(&self) -> Vec<Witness> {
        self.wits.iter().map(|w| Witness::from(w.clone())).collect()
    }
    pub fn script_tx(&self) -> Script {
        let mut t = Transaction::script(self.gas_price, self.gas_limit, self.maturity, self.script.clone(), self.sdata.clone(), self.inputs(), self.outputs(), self.witnesses());
        *t.receipts_root_mut() = self.root.into();
        t
    }
    pub fn create_tx(&self) -> Create {
        let slots = self.slots.iter().map(|(k, v)| StorageSlot::new((*k).into(), (*v).into())).collect();
        let mut t = Transaction::create(self.gas_price, self.gas_limit, self.maturity, self.bwi, self.salt.into(), slots, self.inputs(), self.outputs(), self.witnesses());
        *t.bytecode_length_mut() = self.blen;
        t
    }
    pub fn tx(&self) -> Transaction {
        if self.create {
            Transaction::Create(self.create_tx())
        } else {
            Transaction::Script(self.script_tx())
        }
    }
    pub fn from_script(t: &Script) -> STx {
        STx {
            create: false,
            gas_price: *t.gas_price(),
            gas_limit: *t.gas_limit(),
            maturity: *t.maturity(),
            root: **t.receipts_root(),
            script: t.script().clone(),
            sdata: t.script_data().clone(),
            ins: t.inputs().iter().map(SIn::from).collect(),
            outs: t.outputs().iter().map(SOut::from).collect(),
            wits: t.witnesses().iter().map(|w| w.as_vec().clone()).collect(),
            ..Default::default()
        }
    }
    pub fn from_create(t: &Create) -> STx {
        STx {
            create: true,
            gas_price: *t.gas_price(),
            gas_limit: *t.gas_limit(),
            maturity: *t.maturity(),
            blen: *t.bytecode_length(),
            bwi: *t.bytecode_witness_index(),
            salt: **t.salt(),
            slots: t.storage_slots().iter().map(|s| (**s.key(), **s.value())).collect(),
            ins: t.inputs().iter().map(SIn::from).collect(),
            outs: t.outputs().iter().map(SOut::from).collect(),
            wits: t.witnesses().iter().map(|w| w.as_vec().clone()).collect(),
            ..Default::default()
        }
    }
    /// None for a mint
    pub fn from(t: &Transaction) -> Option<STx> {
        match t {
            Transaction::Script(s) => Some(STx::from_script(s)),
            Transaction::Create(s) => Some(STx::from_create(s)),
            Transaction::Mint(_) => None,
        }
    }
    pub fn same_but_witnesses(&self, o: &STx) -> bool {
        if self.create != o.create || self.ins.len() != o.ins.len() || self.outs.len() != o.outs.len() || self.slots.len() != o.slots.len() {
            return false;
        }
        let mut r = (self.gas_price == o.gas_price)
            & (self.gas_limit == o.gas_limit)
            & (self.maturity == o.maturity)
            & sym::eq(&self.root, &o.root)
            & sym::eq(&self.script, &o.script)
            & sym::eq(&self.sdata, &o.sdata)
            & (self.blen == o.blen)
            & (self.bwi == o.bwi)
            & sym::eq(&self.salt, &o.salt);
        for (a, b) in self.slots.iter().zip(&o.slots) {
            r = r & sym::eq(&a.0, &b.0) & sym::eq(&a.1, &b.1);
        }
        for (a, b) in self.ins.iter().zip(&o.ins) {
            r = r & a.same(b);
        }
        for (a, b) in self.outs.iter().zip(&o.outs) {
            r = r & a.same(b);
        }
        r
    }
    pub fn same(&self, o: &STx) -> bool {
        if self.wits.len() != o.wits.len() {
            return false;
        }
        let mut r = self.same_but_witnesses(o);
        for (a, b) in self.wits.iter().zip(&o.wits) {
            r = r & sym::eq(a, b);
        }
        r
    }
    pub fn enc(&self) -> Enc {
        let mut e = Enc::default();
        e.w(self.create as u64);
        e.m("gas_price", 0);
        e.w(self.gas_price);
        e.m("gas_limit", 0);
        e.w(self.gas_limit);
        e.m("maturity", 0);
        e.w(self.maturity);
        if self.create {
            e.m("bytecode_length", 0);
            e.w(self.blen);
            e.m("bytecode_witness_index", 0);
            e.w(self.bwi as u64);
            e.w(self.slots.len() as u64);
        } else {
            e.w(self.script.len() as u64);
            e.w(self.sdata.len() as u64);
        }
        e.w(self.ins.len() as u64);
        e.w(self.outs.len() as u64);
        e.w(self.wits.len() as u64);
        if self.create {
            e.m("salt", 0);
            e.a(&self.salt);
            e.m("slots", 0);
            for (i, (k, v)) in self.slots.iter().enumerate() {
                e.m("slot", i);
                e.a(k);
                e.a(v);
            }
        } else {
            e.m("receipts_root", 0);
            e.a(&self.root);
            e.m("script", 0);
            e.raw(&self.script);
            e.m("script_data", 0);
            e.raw(&self.sdata);
        }
        e.m("inputs", 0);
        for (i, x) in self.ins.iter().enumerate() {
            e.m("input", i);
            let s = x.encoded();
            if x.k == COINP || x.k == MSGP {
                e.marks.push(("input_predicate", i, e.b.len() + s.at("predicate", 0)));
            }
            e.b.extend_from_slice(&s.b);
        }
        e.m("outputs", 0);
        for (i, x) in self.outs.iter().enumerate() {
            e.m("output", i);
            let s = x.encoded();
            e.b.extend_from_slice(&s.b);
        }
        e.m("witnesses", 0);
        for (i, x) in self.wits.iter().enumerate() {
            e.m("witness", i);
            e.w(x.len() as u64);
            e.raw(x);
        }
        e
    }
    /// what the identifier commits to
    pub fn stripped(&self) -> STx {
        let mut s = self.clone();
        s.root = [0; 32];
        s.ins = self.ins.iter().map(|i| i.stripped()).collect();
        s.outs = self.outs.iter().map(|i| i.stripped()).collect();
        s.wits.clear();
        s
    }
}

#[derive(Clone, Default)]
pub struct SMint {
    pub bh: u32,
    pub ti: u16,
    pub outs: Vec<SOut>,
}
impl SMint {
    pub fn any() -> SMint {
        SMint { bh: sym::u32(), ti: sym::u16(), outs: vec![] }
    }
    pub fn to(&self) -> Mint {
        Transaction::mint(TxPointer::new(self.bh, self.ti), self.outs.iter().map(|o| o.to()).collect())
    }
    pub fn from(m: &Mint) -> SMint {
        SMint { bh: m.tx_pointer().block_height(), ti: m.tx_pointer().tx_index(), outs: m.outputs().iter().map(SOut::from).collect() }
    }
    pub fn same(&self, o: &SMint) -> bool {
        if self.outs.len() != o.outs.len() {
            return false;
        }
        let mut r = (self.bh == o.bh) & (self.ti == o.ti);
        for (a, b) in self.outs.iter().zip(&o.outs) {
            r = r & a.same(b);
        }
        r
    }
    pub fn enc(&self) -> Enc {
        let mut e = Enc::default();
        e.w(2);
        e.m("tx_pointer", 0);
        e.w(self.bh as u64);
        e.w(self.ti as u64);
        e.w(self.outs.len() as u64);
        e.m("outputs", 0);
        for (i, x) in self.outs.iter().enumerate() {
            e.m("output", i);
            e.b.extend_from_slice(&x.encoded().b);
        }
        e
    }
}

/// Receipts: `a` are 32-byte fields and `w` words, in the order of the encoding of each variant.
#[derive(Clone, Default)]
pub struct SRec {
    pub k: u8,
    pub a: Vec<B>,
    pub w: Vec<u64>,
    pub data: Vec<u8>,
}
pub const REC_A: [usize; 11] = [3, 1, 2, 1, 1, 1, 2, 3, 3, 0, 5];
pub const REC_W: [usize; 11] = [6, 3, 4, 3, 3, 6, 6, 3, 3, 2, 2];
pub const R_CALL: u8 = 0;
pub const R_RET: u8 = 1;
pub const R_RETDATA: u8 = 2;
pub const R_PANIC: u8 = 3;
pub const R_REVERT: u8 = 4;
pub const R_LOG: u8 = 5;
pub const R_LOGDATA: u8 = 6;
pub const R_TRANSFER: u8 = 7;
pub const R_OUT: u8 = 8;
pub const R_RESULT: u8 = 9;
pub const R_MSG: u8 = 10;

pub fn has_data(k: u8) -> bool {
    k == R_RETDATA || k == R_LOGDATA || k == R_MSG
}
impl SRec {
    pub fn any(k: u8, n: u64) -> SRec {
        let mut s = SRec { k, ..Default::default() };
        for _ in 0..REC_A[k as usize] {
            s.a.push(sym::arr());
        }
        for _ in 0..REC_W[k as usize] {
            s.w.push(sym::u64());
        }
        if has_data(k) {
            s.data = bytes(n);
        }
        if k == R_PANIC {
            // the canonical word of the panic reason it denotes
            s.w[0] = Word::from(InstructionResult::from(s.w[0]));
        }
        s
    }
    pub fn to(&self) -> Receipt {
        let (a, w) = (&self.a, &self.w);
        let data = self.data.clone();
        match self.k {
            R_CALL => Receipt::Call { id: a[0].into(), to: a[1].into(), amount: w[0], asset_id: a[2].into(), gas: w[1], param1: w[2], param2: w[3], pc: w[4], is: w[5] },
            R_RET => Receipt::Return { id: a[0].into(), val: w[0], pc: w[1], is: w[2] },
            R_RETDATA => Receipt::ReturnData { id: a[0].into(), ptr: w[0], len: w[1], digest: a[1].into(), data, pc: w[2], is: w[3] },
            R_PANIC => Receipt::Panic { id: a[0].into(), reason: InstructionResult::from(w[0]), pc: w[1], is: w[2], contract_id: None },
            R_REVERT => Receipt::Revert { id: a[0].into(), ra: w[0], pc: w[1], is: w[2] },
            R_LOG => Receipt::Log { id: a[0].into(), ra: w[0], rb: w[1], rc: w[2], rd: w[3], pc: w[4], is: w[5] },
            R_LOGDATA => Receipt::LogData { id: a[0].into(), ra: w[0], rb: w[1], ptr: w[2], len: w[3], digest: a[1].into(), data, pc: w[4], is: w[5] },
            R_TRANSFER => Receipt::Transfer { id: a[0].into(), to: a[1].into(), amount: w[0], asset_id: a[2].into(), pc: w[1], is: w[2] },
            R_OUT => Receipt::TransferOut { id: a[0].into(), to: a[1].into(), amount: w[0], asset_id: a[2].into(), pc: w[1], is: w[2] },
            R_RESULT => Receipt::ScriptResult { result: result_of(w[0]), gas_used: w[1] },
            _ => Receipt::MessageOut { message_id: a[0].into(), sender: a[1].into(), recipient: a[2].into(), amount: w[0], nonce: a[3].into(), len: w[1], digest: a[4].into(), data },
        }
    }
    pub fn from(r: &Receipt) -> SRec {
        let (k, a, w, data): (u8, Vec<B>, Vec<u64>, Vec<u8>) = match r {
            Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => (R_CALL, vec![**id, **to, **asset_id], vec![*amount, *gas, *param1, *param2, *pc, *is], vec![]),
            Receipt::Return { id, val, pc, is } => (R_RET, vec![**id], vec![*val, *pc, *is], vec![]),
            Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => (R_RETDATA, vec![**id, **digest], vec![*ptr, *len, *pc, *is], data.clone()),
            Receipt::Panic { id, reason, pc, is, .. } => (R_PANIC, vec![**id], vec![Word::from(*reason), *pc, *is], vec![]),
            Receipt::Revert { id, ra, pc, is } => (R_REVERT, vec![**id], vec![*ra, *pc, *is], vec![]),
            Receipt::Log { id, ra, rb, rc, rd, pc, is } => (R_LOG, vec![**id], vec![*ra, *rb, *rc, *rd, *pc, *is], vec![]),
            Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => (R_LOGDATA, vec![**id, **digest], vec![*ra, *rb, *ptr, *len, *pc, *is], data.clone()),
            Receipt::Transfer { id, to, amount, asset_id, pc, is } => (R_TRANSFER, vec![**id, **to, **asset_id], vec![*amount, *pc, *is], vec![]),
            Receipt::TransferOut { id, to, amount, asset_id, pc, is } => (R_OUT, vec![**id, **to, **asset_id], vec![*amount, *pc, *is], vec![]),
            Receipt::ScriptResult { result, gas_used } => (R_RESULT, vec![], vec![word_of(*result), *gas_used], vec![]),
            Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => (R_MSG, vec![**message_id, **sender, **recipient, **nonce, **digest], vec![*amount, *len], data.clone()),
        };
        SRec { k, a, w, data }
    }
    pub fn same(&self, o: &SRec) -> bool {
        if self.k != o.k {
            return false;
        }
        let mut r = sym::eq(&self.data, &o.data);
        for (x, y) in self.a.iter().zip(&o.a) {
            r = r & sym::eq(x, y);
        }
        for (x, y) in self.w.iter().zip(&o.w) {
            r = r & (x == y);
        }
        r
    }
    pub fn enc(&self) -> Enc {
        let (a, w) = (&self.a, &self.w);
        let mut e = Enc::default();
        e.w(self.k as u64);
        match self.k {
            R_CALL => {
                e.a(&a[0]);
                e.a(&a[1]);
                e.w(w[0]);
                e.a(&a[2]);
                for x in &w[1..] {
                    e.w(*x);
                }
            }
            R_RETDATA => {
                e.a(&a[0]);
                e.w(w[0]);
                e.w(w[1]);
                e.a(&a[1]);
                e.w(self.data.len() as u64);
                e.raw(&self.data);
                e.w(w[2]);
                e.w(w[3]);
            }
            R_LOGDATA => {
                e.a(&a[0]);
                for x in &w[..4] {
                    e.w(*x);
                }
                e.a(&a[1]);
                e.w(self.data.len() as u64);
                e.raw(&self.data);
                e.w(w[4]);
                e.w(w[5]);
            }
            R_TRANSFER | R_OUT => {
                e.a(&a[0]);
                e.a(&a[1]);
                e.w(w[0]);
                e.a(&a[2]);
                e.w(w[1]);
                e.w(w[2]);
            }
            R_MSG => {
                e.a(&a[0]);
                e.a(&a[1]);
                e.a(&a[2]);
                e.w(w[0]);
                e.a(&a[3]);
                e.w(w[1]);
                e.a(&a[4]);
                e.w(self.data.len() as u64);
                e.raw(&self.data);
            }
            R_RESULT => {
                e.w(w[0]);
                e.w(w[1]);
            }
            _ => {
                e.a(&a[0]);
                for x in w {
                    e.w(*x);
                }
            }
        }
        e
    }
}
pub fn result_of(w: u64) -> ScriptExecutionResult {
    match w {
        0 => ScriptExecutionResult::Success,
        1 => ScriptExecutionResult::Revert,
        2 => ScriptExecutionResult::Panic,
        n => ScriptExecutionResult::GenericFailure(n),
    }
}
pub fn word_of(r: ScriptExecutionResult) -> u64 {
    match r {
        ScriptExecutionResult::Success => 0,
        ScriptExecutionResult::Revert => 1,
        ScriptExecutionResult::Panic => 2,
        ScriptExecutionResult::GenericFailure(n) => n,
    }
}

/// lengths of byte strings tried by the harnesses: around the word size, and a few long ones
pub const LENS: [u64; 16] = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 255, 257];
pub fn len(q: u64, t: u64) -> u64 {
    LENS[sym::choose(0, sym::bound(q, t)) as usize]
}

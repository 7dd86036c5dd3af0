//! Building the real instructions of an operation, with optional account substitution.
use crate::vm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use serde_json::{json, Value};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    system_program, sysvar,
};
use spl_associated_token_account::get_associated_token_address as ata;

pub fn int(v: &Value) -> i128 {
    match v {
        Value::String(s) => s.parse().unwrap_or_else(|_| panic!("not an integer: {}", s)),
        Value::Number(n) => n.as_i64().unwrap() as i128,
        _ => panic!("not an integer: {}", v),
    }
}
pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("not a string: {}", v))
}
pub fn key(v: &Value) -> Key {
    (int(&v[0]) as i64, int(&v[1]) as i64, int(&v[2]) as i64)
}

#[derive(Clone)]
pub struct Slot {
    name: String,
    key: Pubkey,
    signer: bool,
    writable: bool,
}
#[derive(Clone)]
pub struct Ix {
    slots: Vec<Slot>,
    data: Vec<u8>,
}
impl Ix {
    fn new(name: &str) -> Ix {
        Ix { slots: vec![], data: disc("global", name).to_vec() }
    }
    fn a(mut self, name: &str, key: Pubkey) -> Ix {
        self.slots.push(Slot { name: name.into(), key, signer: false, writable: true });
        self
    }
    fn signer(mut self, key: Pubkey) -> Ix {
        self.slots.push(Slot { name: "s".into(), key, signer: true, writable: true });
        self
    }
    fn ro(mut self, name: &str, key: Pubkey) -> Ix {
        self.slots.push(Slot { name: name.into(), key, signer: false, writable: false });
        self
    }
    fn u64(mut self, v: i128) -> Ix {
        self.data.extend((v as u64).to_le_bytes());
        self
    }
    fn raw(mut self, b: &[u8]) -> Ix {
        self.data.extend(b);
        self
    }
    fn sys(self) -> Ix {
        self.ro("system", system_program::ID)
    }
    fn rent(self) -> Ix {
        self.ro("rent", sysvar::rent::ID)
    }
    fn tok(self) -> Ix {
        self.ro("token", spl_token::ID)
    }
    fn core(self) -> Ix {
        self.ro("core", cyclos_core::ID)
    }
    /// Programs reached through cross-program invocation ride along at the end.
    pub fn finish(mut self) -> Instruction {
        for p in [cyclos_core::ID, attacker(), spl_token::ID, system_program::ID, metaplex()] {
            if !self.slots.iter().any(|x| x.key == p) {
                self = self.ro("_", p);
            }
        }
        Instruction {
            program_id: cyclos_core::ID,
            accounts: self
                .slots
                .iter()
                .map(|x| AccountMeta { pubkey: x.key, is_signer: x.signer, is_writable: x.writable })
                .collect(),
            data: self.data,
        }
    }
}

pub enum Built {
    Tx(Vec<Instruction>),
    Clock(i64),
    /// a reading through the library: nothing changes
    Probe(Result<Vec<Value>, String>),
    /// The tree no longer offers what the step asks for.
    Unavailable,
    /// the requested substitution or re-entrance has no candidate here: nothing is executed
    Vacuous,
}

fn fdiv(a: i64, b: i64) -> i64 {
    a.div_euclid(b)
}

impl World {
    fn pool_spacing(&self, p: &Pubkey) -> i64 {
        self.data(p).map(|d| { view::<PoolState>(d).tick_spacing } as i64).filter(|x| *x > 0).unwrap_or(1)
    }
    pub fn word_of(&mut self, k: Key, t: i64) -> i64 {
        let p = self.pool(k);
        let sp = self.pool_spacing(&p);
        fdiv(fdiv(t, sp), 256)
    }
    fn last_obs(&mut self, k: Key) -> Pubkey {
        let p = self.pool(k);
        let i = self.data(&p).map(|d| { view::<PoolState>(d).observation_index }).unwrap_or(0);
        self.obs(k, i as i64).0
    }
    fn path_accounts(&mut self, k: Key, path: &Value) -> Vec<Pubkey> {
        let mut out = vec![];
        if let Some(l) = path.as_array() {
            for e in l {
                let i = int(&e[1]) as i64;
                out.push(match s(&e[0]) {
                    "w" => self.word(k, i),
                    "t" => self.tick(k, i),
                    _ => self.obs(k, i).0,
                });
            }
        }
        out
    }
    fn rest(ix: Ix, l: Vec<Pubkey>) -> Ix {
        let mut ix = ix;
        for (i, a) in l.into_iter().enumerate() {
            ix = ix.a(&format!("r{}", i), a);
        }
        ix
    }
    fn handler(&self, cb: &str) -> Pubkey {
        if cb == "core" {
            cyclos_core::ID
        } else {
            attacker()
        }
    }

    /// The instruction of a program operation. `path`: additional accounts per hop.
    fn instruction(&mut self, tag: &str, o: &Value, path: &Value) -> Ix {
        let i = |f: &str| int(&o[f]);
        let n = |f: &str| int(&o[f]) as i64;
        let us = |f: &str| s(&o[f]).to_string();
        let path0 = &path[0];
        match tag {
            "OInitFactory" => {
                let (u, f) = (self.user(&us("s")), self.factory());
                Ix::new("init_factory").signer(u).a("factory", f).sys()
            }
            "OSetOwner" => {
                let (u, d, f) = (self.user(&us("s")), self.user(&us("dst")), self.factory());
                Ix::new("set_owner").signer(u).ro("new", d).a("factory", f)
            }
            "OEnableFee" => {
                let (u, f, t) = (self.user(&us("s")), self.factory(), self.fee(n("fee")));
                Ix::new("enable_fee_amount")
                    .signer(u)
                    .a("factory", f)
                    .a("fee", t)
                    .sys()
                    .raw(&(n("fee") as u32).to_le_bytes())
                    .raw(&(n("spacing") as u16).to_le_bytes())
            }
            "OSetFeeProt" => {
                let (u, f) = (self.user(&us("s")), self.factory());
                Ix::new("set_fee_protocol").signer(u).a("factory", f).raw(&[n("v") as u8])
            }
            "OColProt" => {
                let k = key(&o["p"]);
                let (u, f, p) = (self.user(&us("s")), self.factory(), self.pool(k));
                let (v0, v1) = (self.vault(k, 0), self.vault(k, 1));
                let (w0, w1) = (self.wal(&us("r"), k.0), self.wal(&us("r"), k.1));
                Ix::new("collect_protocol")
                    .signer(u)
                    .a("factory", f)
                    .a("pool", p)
                    .a("v0", v0)
                    .a("v1", v1)
                    .a("r0w", w0)
                    .a("r1w", w1)
                    .tok()
                    .u64(i("a0"))
                    .u64(i("a1"))
            }
            "OCreatePool" => {
                let k = (n("t0"), n("t1"), n("fee"));
                let (u, a, b, f) = (self.user(&us("s")), self.token(k.0), self.token(k.1), self.fee(k.2));
                let (p, ob) = (self.pool(k), self.obs(k, 0).0);
                Ix::new("create_and_init_pool")
                    .signer(u)
                    .ro("t0", a)
                    .ro("t1", b)
                    .ro("fee", f)
                    .a("pool", p)
                    .a("obs", ob)
                    .sys()
                    .rent()
                    .u64(i("price"))
            }
            "OIncObs" => {
                let k = key(&o["p"]);
                let (u, p) = (self.user(&us("s")), self.pool(k));
                let cn = self.data(&p).map(|d| { view::<PoolState>(d).observation_cardinality_next }).unwrap_or(1) as i64;
                let mut bumps = vec![];
                let mut slots = vec![];
                for j in 0..n("n") {
                    let (a, b) = self.obs(k, cn + j);
                    slots.push(a);
                    bumps.push(b);
                }
                let ix = Ix::new("increase_observation_cardinality_next")
                    .signer(u)
                    .a("pool", p)
                    .sys()
                    .raw(&(bumps.len() as u32).to_le_bytes())
                    .raw(&bumps);
                Self::rest(ix, slots)
            }
            "OInitTick" => {
                let k = key(&o["p"]);
                let (u, p, t) = (self.user(&us("s")), self.pool(k), self.tick(k, n("t")));
                Ix::new("init_tick_account")
                    .signer(u)
                    .ro("pool", p)
                    .a("tick", t)
                    .sys()
                    .raw(&(n("t") as i32).to_le_bytes())
            }
            "OCloseTick" => {
                let k = key(&o["p"]);
                let (t, r) = (self.tick(k, n("t")), self.user(&us("r")));
                Ix::new("close_tick_account").a("tick", t).a("recipient", r)
            }
            "OInitWord" => {
                let k = key(&o["p"]);
                let (u, p, w) = (self.user(&us("s")), self.pool(k), self.word(k, n("wd")));
                Ix::new("init_bitmap_account")
                    .signer(u)
                    .ro("pool", p)
                    .a("word", w)
                    .sys()
                    .raw(&(n("wd") as i16).to_le_bytes())
            }
            "OInitPos" => {
                let k = key(&o["p"]);
                let (u, r, p) = (self.user(&us("s")), self.user(&us("o")), self.pool(k));
                let (lo, hi) = (self.tick(k, n("lo")), self.tick(k, n("hi")));
                let x = self.pos(k, &us("o"), n("lo"), n("hi"));
                Ix::new("init_position_account")
                    .signer(u)
                    .ro("recipient", r)
                    .ro("pool", p)
                    .ro("lo", lo)
                    .ro("hi", hi)
                    .a("pos", x)
                    .sys()
            }
            "OMint" => {
                let k = key(&o["p"]);
                let (lo, hi) = (n("lo"), n("hi"));
                let (wl, wh) = (self.word_of(k, lo), self.word_of(k, hi));
                let sg = us("s");
                let ix = Ix::new("mint")
                    .signer(self.user(&sg))
                    .a("w0", self.wal(&sg, k.0))
                    .a("w1", self.wal(&sg, k.1))
                    .a("v0", self.vault(k, 0))
                    .a("v1", self.vault(k, 1))
                    .ro("recipient", self.user(&us("o")))
                    .a("pool", self.pool(k))
                    .a("lo", self.tick(k, lo))
                    .a("hi", self.tick(k, hi))
                    .a("wlo", self.word(k, wl))
                    .a("whi", self.word(k, wh))
                    .a("pos", self.pos(k, &us("o"), lo, hi))
                    .a("obs", self.last_obs(k))
                    .tok()
                    .ro("handler", self.handler(s(&o["cb"])))
                    .u64(i("amt"));
                Self::rest(ix, self.path_accounts(k, path0))
            }
            "OBurn" => {
                let k = key(&o["p"]);
                let (lo, hi) = (n("lo"), n("hi"));
                let (wl, wh) = (self.word_of(k, lo), self.word_of(k, hi));
                let ix = Ix::new("burn")
                    .signer(self.user(&us("s")))
                    .a("pool", self.pool(k))
                    .a("lo", self.tick(k, lo))
                    .a("hi", self.tick(k, hi))
                    .a("wlo", self.word(k, wl))
                    .a("whi", self.word(k, wh))
                    .a("pos", self.pos(k, &us("o"), lo, hi))
                    .a("obs", self.last_obs(k))
                    .u64(i("amt"));
                Self::rest(ix, self.path_accounts(k, path0))
            }
            "OCollect" => {
                let k = key(&o["p"]);
                let (lo, hi) = (n("lo"), n("hi"));
                Ix::new("collect")
                    .signer(self.user(&us("s")))
                    .a("pool", self.pool(k))
                    .a("lo", self.tick(k, lo))
                    .a("hi", self.tick(k, hi))
                    .a("pos", self.pos(k, &us("o"), lo, hi))
                    .a("v0", self.vault(k, 0))
                    .a("v1", self.vault(k, 1))
                    .a("r0w", self.wal(&us("r"), k.0))
                    .a("r1w", self.wal(&us("r"), k.1))
                    .tok()
                    .u64(i("a0"))
                    .u64(i("a1"))
            }
            "OSwap" => {
                let k = key(&o["p"]);
                let z = o["zfo"].as_bool().unwrap();
                let sg = us("s");
                let (ti, to, vi, vo) = if z { (k.0, k.1, 0, 1) } else { (k.1, k.0, 1, 0) };
                let ix = Ix::new("swap")
                    .signer(self.user(&sg))
                    .a("win", self.wal(&sg, ti))
                    .a("wout", self.wal(&sg, to))
                    .a("vin", self.vault(k, vi))
                    .a("vout", self.vault(k, vo))
                    .tok()
                    .ro("factory", self.factory())
                    .a("pool", self.pool(k))
                    .a("obs", self.last_obs(k))
                    .ro("handler", self.handler(s(&o["cb"])))
                    .raw(&(i("amt") as i64).to_le_bytes())
                    .u64(i("lim"));
                Self::rest(ix, self.path_accounts(k, path0))
            }
            "ONMint" => {
                let k = key(&o["p"]);
                let (lo, hi, sg, nn) = (n("lo"), n("hi"), us("s"), n("n"));
                let (wl, wh) = (self.word_of(k, lo), self.word_of(k, hi));
                let mut ix = Ix::new("mint_tokenized_position")
                    .signer(self.user(&sg))
                    .ro("recipient", self.user(&us("r")))
                    .ro("factory", self.factory())
                    .a("nmint", self.nmint(nn));
                ix.slots[3].signer = true;
                ix = ix
                    .a("nacc", self.nacc(nn, &us("r")))
                    .a("pool", self.pool(k))
                    .a("pos", self.pos(k, FAC, lo, hi))
                    .a("lo", self.tick(k, lo))
                    .a("hi", self.tick(k, hi))
                    .a("wlo", self.word(k, wl))
                    .a("whi", self.word(k, wh))
                    .a("nrec", self.nrec(nn))
                    .a("w0", self.wal(&sg, k.0))
                    .a("w1", self.wal(&sg, k.1))
                    .a("v0", self.vault(k, 0))
                    .a("v1", self.vault(k, 1))
                    .a("obs", self.last_obs(k))
                    .rent()
                    .core()
                    .sys()
                    .tok()
                    .ro("ata", spl_associated_token_account::ID)
                    .u64(i("d0"))
                    .u64(i("d1"))
                    .u64(i("m0"))
                    .u64(i("m1"))
                    .raw(&(i("dl") as i64).to_le_bytes());
                Self::rest(ix, self.path_accounts(k, path0))
            }
            "ONMeta" => {
                let nn = n("n");
                Ix::new("add_metaplex_metadata")
                    .signer(self.user(&us("s")))
                    .ro("factory", self.factory())
                    .a("nmint", self.nmint(nn))
                    .ro("nrec", self.nrec(nn))
                    .a("metadata", Pubkey::new_from_array([0x3D; 32]))
                    .rent()
                    .ro("metaplex", metaplex())
                    .tok()
                    .sys()
            }
            "ONInc" => {
                let k = key(&o["p"]);
                let (lo, hi, sg, nn) = (n("lo"), n("hi"), us("s"), n("n"));
                let (wl, wh) = (self.word_of(k, lo), self.word_of(k, hi));
                let ix = Ix::new("increase_liquidity")
                    .signer(self.user(&sg))
                    .ro("factory", self.factory())
                    .a("nrec", self.nrec(nn))
                    .a("pool", self.pool(k))
                    .a("pos", self.pos(k, FAC, lo, hi))
                    .a("lo", self.tick(k, lo))
                    .a("hi", self.tick(k, hi))
                    .a("wlo", self.word(k, wl))
                    .a("whi", self.word(k, wh))
                    .a("w0", self.wal(&sg, k.0))
                    .a("w1", self.wal(&sg, k.1))
                    .a("v0", self.vault(k, 0))
                    .a("v1", self.vault(k, 1))
                    .a("obs", self.last_obs(k))
                    .core()
                    .tok()
                    .u64(i("d0"))
                    .u64(i("d1"))
                    .u64(i("m0"))
                    .u64(i("m1"))
                    .raw(&(i("dl") as i64).to_le_bytes());
                Self::rest(ix, self.path_accounts(k, path0))
            }
            "ONDec" => {
                let k = key(&o["p"]);
                let (lo, hi, sg, nn) = (n("lo"), n("hi"), us("s"), n("n"));
                let (wl, wh) = (self.word_of(k, lo), self.word_of(k, hi));
                let ix = Ix::new("decrease_liquidity")
                    .signer(self.user(&sg))
                    .ro("nacc", self.nacc(n("an"), &us("au")))
                    .a("nrec", self.nrec(nn))
                    .ro("factory", self.factory())
                    .a("pool", self.pool(k))
                    .a("pos", self.pos(k, FAC, lo, hi))
                    .a("lo", self.tick(k, lo))
                    .a("hi", self.tick(k, hi))
                    .a("wlo", self.word(k, wl))
                    .a("whi", self.word(k, wh))
                    .a("obs", self.last_obs(k))
                    .core()
                    .u64(i("liq"))
                    .u64(i("m0"))
                    .u64(i("m1"))
                    .raw(&(i("dl") as i64).to_le_bytes());
                Self::rest(ix, self.path_accounts(k, path0))
            }
            "ONCol" => {
                let k = key(&o["p"]);
                let (lo, hi, sg, nn) = (n("lo"), n("hi"), us("s"), n("n"));
                let (wl, wh) = (self.word_of(k, lo), self.word_of(k, hi));
                let ix = Ix::new("collect_from_tokenized")
                    .signer(self.user(&sg))
                    .ro("nacc", self.nacc(n("an"), &us("au")))
                    .a("nrec", self.nrec(nn))
                    .ro("factory", self.factory())
                    .a("pool", self.pool(k))
                    .a("pos", self.pos(k, FAC, lo, hi))
                    .a("lo", self.tick(k, lo))
                    .a("hi", self.tick(k, hi))
                    .a("wlo", self.word(k, wl))
                    .a("whi", self.word(k, wh))
                    .a("obs", self.last_obs(k))
                    .a("v0", self.vault(k, 0))
                    .a("v1", self.vault(k, 1))
                    .a("r0w", self.wal(&us("r"), k.0))
                    .a("r1w", self.wal(&us("r"), k.1))
                    .core()
                    .tok()
                    .u64(i("a0"))
                    .u64(i("a1"));
                Self::rest(ix, self.path_accounts(k, path0))
            }
            "OExSingle" => {
                let k = key(&o["p"]);
                let z = o["zfo"].as_bool().unwrap();
                let sg = us("s");
                let (ti, to, vi, vo) = if z { (k.0, k.1, 0, 1) } else { (k.1, k.0, 1, 0) };
                let ix = Ix::new("exact_input_single")
                    .signer(self.user(&sg))
                    .ro("factory", self.factory())
                    .a("pool", self.pool(k))
                    .a("win", self.wal(&sg, ti))
                    .a("wout", self.wal(&sg, to))
                    .a("vin", self.vault(k, vi))
                    .a("vout", self.vault(k, vo))
                    .a("obs", self.last_obs(k))
                    .core()
                    .tok()
                    .raw(&(i("dl") as i64).to_le_bytes())
                    .u64(i("amt"))
                    .u64(i("min"))
                    .u64(i("lim"));
                Self::rest(ix, self.path_accounts(k, path0))
            }
            "OExIn" => {
                let sg = us("s");
                let hops = o["hops"].as_array().cloned().unwrap_or_default();
                let first = hops
                    .first()
                    .map(|h| {
                        let k = key(&h[0]);
                        if h[1].as_bool().unwrap() {
                            k.0
                        } else {
                            k.1
                        }
                    })
                    .unwrap_or(0);
                let mut ix = Ix::new("exact_input")
                    .signer(self.user(&sg))
                    .ro("factory", self.factory())
                    .a("win", self.wal(&sg, first))
                    .core()
                    .tok();
                let mut counts = vec![];
                let mut later: Vec<(String, Pubkey)> = vec![];
                // the oracle slot an earlier hop has moved on to
                let mut moved: std::collections::HashMap<Key, i64> = Default::default();
                for (j, h) in hops.iter().enumerate() {
                    let k = key(&h[0]);
                    let (to, vi, vo) = if h[1].as_bool().unwrap() { (k.1, 0, 1) } else { (k.0, 1, 0) };
                    let extra = self.path_accounts(k, &path[j]);
                    later.push((format!("h{}pool", j), self.pool(k)));
                    later.push((format!("h{}wout", j), self.wal(&sg, to)));
                    later.push((format!("h{}vin", j), self.vault(k, vi)));
                    later.push((format!("h{}vout", j), self.vault(k, vo)));
                    let last = match moved.get(&k) {
                        Some(x) => self.obs(k, *x).0,
                        None => self.last_obs(k),
                    };
                    later.push((format!("h{}obs", j), last));
                    for e in path[j].as_array().unwrap_or(&vec![]) {
                        if s(&e[0]) == "o" {
                            moved.insert(k, int(&e[1]) as i64);
                        }
                    }
                    counts.push(extra.len() as u8);
                    for (q, a) in extra.into_iter().enumerate() {
                        later.push((format!("h{}r{}", j, q), a));
                    }
                }
                for (nm, a) in later {
                    ix = ix.a(&nm, a);
                }
                ix.raw(&(i("dl") as i64).to_le_bytes())
                    .u64(i("amt"))
                    .u64(i("min"))
                    .raw(&(counts.len() as u32).to_le_bytes())
                    .raw(&counts)
            }
            "OPayMint" => {
                let k = key(&o["p"]);
                let sg = us("s");
                Ix::new("mint_callback")
                    .signer(self.user(&sg))
                    .a("w0", self.wal(&sg, k.0))
                    .a("w1", self.wal(&sg, k.1))
                    .a("v0", self.vault(k, 0))
                    .a("v1", self.vault(k, 1))
                    .tok()
                    .u64(i("a0"))
                    .u64(i("a1"))
            }
            "OPaySwap" => {
                let k = key(&o["p"]);
                let sg = us("s");
                let (ti, to, vi, vo) = if o["zfo"].as_bool().unwrap() { (k.0, k.1, 0, 1) } else { (k.1, k.0, 1, 0) };
                Ix::new("swap_callback")
                    .signer(self.user(&sg))
                    .a("win", self.wal(&sg, ti))
                    .a("wout", self.wal(&sg, to))
                    .a("vin", self.vault(k, vi))
                    .a("vout", self.vault(k, vo))
                    .tok()
                    .raw(&(i("d0") as i64).to_le_bytes())
                    .raw(&(i("d1") as i64).to_le_bytes())
            }
            t => panic!("unknown operation {}", t),
        }
    }

    // ------------------------------------------------------------------ substitution
    fn spare(&mut self, mint: Pubkey, owner: Pubkey) -> Pubkey {
        let mut h = solana_program::hash::hash(&[mint.as_ref(), owner.as_ref(), b"spare"].concat()).to_bytes();
        h[0] = 0x5B;
        let a = Pubkey::new_from_array(h);
        self.put_token_account(a, mint, owner, 1_000_000);
        self.roles.insert(a, Role::Spare);
        a
    }
    /// Replace the account in `slot`; false if there is no candidate.
    fn substitute(&mut self, ix: &mut Ix, slot: &str, kind: &str, salt: usize) -> bool {
        let signer = ix.slots[0].key;
        if slot == "vaults" && kind == "crossed" {
            let pos: Vec<usize> = ["v0", "v1", "r0w", "r1w", "w0", "w1"]
                .iter()
                .map(|n| ix.slots.iter().position(|x| x.name == *n).unwrap_or(usize::MAX))
                .collect();
            for (a, b) in [(0, 1), (2, 3), (4, 5)] {
                if pos[a] != usize::MAX {
                    let t = ix.slots[pos[a]].key;
                    ix.slots[pos[a]].key = ix.slots[pos[b]].key;
                    ix.slots[pos[b]].key = t;
                }
            }
            return true;
        }
        if slot == "ticks" && kind == "crossed" {
            let (a, b) = (
                ix.slots.iter().position(|x| x.name == "lo").unwrap(),
                ix.slots.iter().position(|x| x.name == "hi").unwrap(),
            );
            let t = ix.slots[a].key;
            ix.slots[a].key = ix.slots[b].key;
            ix.slots[b].key = t;
            return true;
        }
        let at = match ix.slots.iter().position(|x| x.name == slot) {
            Some(x) => x,
            None => return false,
        };
        let old = ix.slots[at].key;
        if kind == "nosign" {
            ix.slots[at].signer = false;
            return true;
        }
        let role = self.roles.get(&old).cloned();
        let new = match kind {
            "fake" => {
                if [spl_token::ID, cyclos_core::ID, system_program::ID, metaplex(), spl_associated_token_account::ID]
                    .contains(&old)
                {
                    fake_program()
                } else {
                    // a forged copy: same bytes, owned by a foreign program
                    let mut a = match self.vm.get(&old) {
                        Some(a) if !a.data.is_empty() => a.clone(),
                        _ => return false,
                    };
                    a.owner = fake_program();
                    if role == Some(Role::Factory) && a.data.len() >= 41 {
                        let mut s: FactoryState = view(&a.data);
                        s.owner = signer; // claims the signer is the owner
                        unview(&mut a.data, s);
                    }
                    let mut h = solana_program::hash::hash(&[old.as_ref(), b"fake"].concat()).to_bytes();
                    h[0] = 0xF4;
                    let k = Pubkey::new_from_array(h);
                    self.vm.accts.insert(k, a);
                    k
                }
            }
            "type" => {
                // an account of another type of the same program, of the same pool where possible
                let want = type_of(self.data(&old).unwrap_or(&[]));
                let mut c: Vec<Pubkey> = self
                    .vm
                    .accts
                    .iter()
                    .filter(|(k, a)| {
                        a.owner == cyclos_core::ID
                            && type_of(&a.data) != want
                            && !ix.slots.iter().any(|x| x.key == **k)
                    })
                    .map(|(k, _)| *k)
                    .collect();
                c.sort();
                if c.is_empty() {
                    return false;
                }
                c[salt % c.len()]
            }
            // nothing there
            "empty" => {
                let mut h = solana_program::hash::hash(&[old.as_ref(), b"empty"].concat()).to_bytes();
                h[0] = 0xE0;
                Pubkey::new_from_array(h)
            }
            "spare" => match self.token_account(&old) {
                Some(t) => self.spare(t.mint, signer),
                None => return false,
            },
            "owned" => match self.token_account(&old) {
                Some(t) => self.spare(t.mint, t.owner),
                None => return false,
            },
            "other" | "user" | "near" => {
                let mut c: Vec<Pubkey> = vec![];
                let roles: Vec<(Pubkey, Role)> = self.roles.iter().map(|(k, r)| (*k, r.clone())).collect();
                for (k, r) in roles {
                    if k == old || (kind != "user" && !self.exists(&k)) {
                        continue;
                    }
                    let fits = match (role.as_ref(), &r) {
                        (Some(Role::User(_)), Role::User(_)) => true,
                        (Some(Role::Factory), Role::User(_)) => true,
                        (Some(Role::Fee(_)), Role::Fee(_)) => true,
                        (Some(Role::Token(_)), Role::Token(_)) => true,
                        (Some(Role::Pool(_)), Role::Pool(_)) => true,
                        (Some(Role::Obs(..)), Role::Obs(..)) => true,
                        (Some(Role::Tick(..)), Role::Tick(..)) => true,
                        (Some(Role::Word(..)), Role::Word(..)) => true,
                        (Some(Role::Pos(..)), Role::Pos(..)) => true,
                        (Some(Role::Vault(..)), Role::Vault(..)) => true,
                        (Some(Role::NAcc(..)), Role::NAcc(..)) => true,
                        (Some(Role::NMint(..)), Role::NMint(..)) => true,
                        // another NFT's record, of another pool or range
                        (Some(Role::NRec(..)), Role::NRec(..)) => {
                            let (a, b): (TokenizedPositionState, TokenizedPositionState) =
                                (view(self.data(&old).unwrap_or(&[])), view(self.data(&k).unwrap_or(&[])));
                            ({ a.pool_id }, { a.tick_lower }, { a.tick_upper }) != ({ b.pool_id }, { b.tick_lower }, { b.tick_upper })
                        }
                        _ => false,
                    };
                    let fits = fits
                        && (kind != "near"
                            || match (role.as_ref(), &r) {
                                (Some(Role::Obs(a, _)), Role::Obs(b, _)) => a == b,
                                (Some(Role::Tick(a, _)), Role::Tick(b, _)) => a == b,
                                (Some(Role::Word(a, _)), Role::Word(b, _)) => a == b,
                                (Some(Role::Pos(a, ..)), Role::Pos(b, ..)) => a == b,
                                _ => false,
                            });
                    if fits {
                        c.push(k);
                    }
                }
                c.sort();
                if c.is_empty() {
                    return false;
                }
                c[salt % c.len()]
            }
            // somebody else's wallet of the same token, the fullest one
            "victim" => {
                let t = match role {
                    Some(Role::Wal(_, t)) => t,
                    _ => return false,
                };
                let mut c: Vec<(u64, Pubkey)> = vec![];
                let l: Vec<(Pubkey, Role)> = self.roles.iter().map(|(k, r)| (*k, r.clone())).collect();
                for (k, r) in l {
                    if let Role::Wal(_, t2) = r {
                        if t2 == t && k != old {
                            if let Some(a) = self.token_account(&k) {
                                c.push((a.amount, k));
                            }
                        }
                    }
                }
                c.sort();
                match c.last() {
                    Some((_, k)) => *k,
                    None => return false,
                }
            }
            k => panic!("unknown substitution {}", k),
        };
        if new == old {
            return false;
        }
        ix.slots[at].key = new;
        true
    }

    // ------------------------------------------------------------------ re-entrance
    /// The operation a hostile payer nests into operation `o`.
    fn nested(&mut self, what: &str, o: &Value, path: &Value, salt: usize) -> Option<Instruction> {
        let k = key(&o["p"]);
        let sg = s(&o["s"]).to_string();
        let pick = |l: &[&str], i: usize| l[salt / i % l.len()].to_string();
        let p = self.pool(k);
        let d: PoolState = view(self.data(&p)?);
        let kj = json!([k.0.to_string(), k.1.to_string(), k.2.to_string()]);
        let own = |w: &World, who: &str, live: bool| -> Option<(i64, i64)> {
            let mut c: Vec<(i64, i64)> = w
                .roles
                .iter()
                .filter_map(|(a, r)| match r {
                    Role::Pos(k2, u, lo, hi) if *k2 == k && u == who => {
                        let l = { view::<PositionState>(w.data(a)?).liquidity };
                        if !live || l > 0 {
                            Some((*lo, *hi))
                        } else {
                            None
                        }
                    }
                    _ => None,
                })
                .collect();
            c.sort();
            c.first().copied()
        };
        let (max, dl) = (u64::MAX.to_string(), i64::MAX.to_string());
        let swap_accounts = |w: &World, z: bool| {
            let sp = w.pool_spacing(&p);
            let c = fdiv({ d.tick } as i64, sp) + if z { 0 } else { 1 };
            json!([[["w", fdiv(c, 256).to_string()]]])
        };
        let ix = match what {
            "swap" => {
                let z = if salt % 3 == 0 { salt / 3 % 2 == 0 } else { o["zfo"].as_bool().unwrap_or(true) };
                let lim = if z { "65538" } else { "281472331703917" };
                let a = swap_accounts(self, z);
                let amt = pick(&["1", "-1", "1000", "1"], 6);
                self.instruction("OSwap", &json!({"s": sg, "p": kj, "zfo": z, "amt": amt, "lim": lim, "cb": "core"}), &a)
            }
            "exs" => {
                let z = salt % 2 == 0;
                let a = swap_accounts(self, z);
                let x = json!({"s": sg, "p": kj, "zfo": z, "amt": pick(&["1", "1000"], 2), "min": "0", "lim": "0", "dl": dl});
                self.instruction("OExSingle", &x, &a)
            }
            "other" => {
                let mut c: Vec<Key> = self
                    .roles
                    .iter()
                    .filter_map(|(a, r)| match r {
                        Role::Pool(x) if *x != k && self.exists(a) => Some(*x),
                        _ => None,
                    })
                    .collect();
                c.sort();
                let x = *c.first()?;
                let z = self.vm.now % 2 == 0;
                let lim = if z { "65538" } else { "281472331703917" };
                let xj = json!([x.0.to_string(), x.1.to_string(), x.2.to_string()]);
                let a = if path[1].is_array() { json!([path[1]]) } else { json!([[]]) };
                self.instruction("OSwap", &json!({"s": sg, "p": xj, "zfo": z, "amt": "1000", "lim": lim, "cb": "core"}), &a)
            }
            "mint" => {
                let (lo, hi) = own(self, &sg, false)?;
                let ns = self.next_slot(k);
                let amt = pick(&["1", "1000"], 1);
                let x = json!({"s": sg, "p": kj, "o": sg, "lo": lo.to_string(), "hi": hi.to_string(), "amt": amt, "cb": "core"});
                self.instruction("OMint", &x, &json!([ns]))
            }
            "burn" => {
                let (lo, hi) = own(self, &sg, true)?;
                let ns = self.next_slot(k);
                let a = self.pos(k, &sg, lo, hi);
                let all = ({ view::<PositionState>(self.data(&a)?).liquidity }).to_string();
                let amt = pick(&["1", "0", &all], 1);
                let x = json!({"s": sg, "p": kj, "o": sg, "lo": lo.to_string(), "hi": hi.to_string(), "amt": amt});
                self.instruction("OBurn", &x, &json!([ns]))
            }
            "collect" => {
                let (lo, hi) = own(self, &sg, false)?;
                let x = json!({"s": sg, "p": kj, "o": sg, "lo": lo.to_string(), "hi": hi.to_string(),
                    "a0": pick(&["0", &max], 1), "a1": pick(&["0", &max], 2), "r": sg});
                self.instruction("OCollect", &x, &json!([[]]))
            }
            "colprot" => {
                // (the owner signs as well)
                let f = self.factory();
                let owner = { view::<FactoryState>(self.data(&f)?).owner };
                let by = match self.roles.get(&owner) {
                    Some(Role::User(u)) => u.clone(),
                    _ => return None,
                };
                let x = json!({"s": by, "p": kj, "a0": pick(&["0", &max], 1), "a1": pick(&["0", &max], 2), "r": sg});
                self.instruction("OColProt", &x, &json!([[]]))
            }
            "incobs" => self.instruction("OIncObs", &json!({"s": sg, "p": kj, "n": pick(&["1", "0", "2"], 1)}), &json!([[]])),
            "ninc" | "ndec" | "ncol" => {
                let mut c: Vec<i64> = self
                    .roles
                    .iter()
                    .filter_map(|(a, r)| match r {
                        Role::NAcc(n, u) if *u == sg && self.token_account(a)?.amount == 1 => Some(*n),
                        _ => None,
                    })
                    .collect();
                c.sort();
                let mut l = vec![];
                for n in c {
                    let r = self.nrec(n);
                    if let Some(d) = self.data(&r) {
                        let v: TokenizedPositionState = view(d);
                        if { v.pool_id } == p {
                            l.push((n, { v.tick_lower }, { v.tick_upper }, { v.liquidity }));
                        }
                    }
                }
                let (n, lo, hi, liq) = *l.get(salt % l.len().max(1))?;
                let ns = json!([self.next_slot(k)]);
                let mut x = json!({"s": sg, "n": n.to_string(), "an": n.to_string(), "au": sg, "p": kj, "lo": lo.to_string(), "hi": hi.to_string(),
                    "m0": "0", "m1": "0", "dl": dl});
                let (tag, more) = match what {
                    "ninc" => ("ONInc", vec![("d0", "1000".to_string()), ("d1", "1000".to_string())]),
                    "ndec" => ("ONDec", vec![("liq", pick(&["0", "1", &liq.to_string()], 1))]),
                    _ => ("ONCol", vec![("a0", max.clone()), ("a1", pick(&[&max, "0"], 1)), ("r", sg.clone())]),
                };
                for (f, v) in more {
                    x[f] = json!(v);
                }
                self.instruction(tag, &x, &ns)
            }
            w => panic!("unknown nested operation {}", w),
        };
        Some(ix.finish())
    }
    fn next_slot(&mut self, k: Key) -> Value {
        let p = self.pool(k);
        let d: PoolState = view(self.data(&p).unwrap_or(&[]));
        let n = ({ d.observation_index } as i64 + 1) % ({ d.observation_cardinality_next }.max(1) as i64);
        json!([["o", n.to_string()]])
    }

    // ------------------------------------------------------------------ a transaction
    pub fn build(&mut self, tx: &Value, path: &Value, salt: usize) -> Built {
        let tag = s(&tx["op"]["tag"]).to_string();
        let o = tx["op"]["value"].clone();
        let us = |f: &str| s(&o[f]).to_string();
        let tok = |ix: Result<Instruction, solana_program::program_error::ProgramError>| ix.unwrap();
        self.vm.payer = Payer::default();
        match tag.as_str() {
            "ETime" => return Built::Clock(self.vm.now + int(&o["dt"]) as i64),
            #[cfg(not(feature = "snapshot"))]
            "ESnap" => return Built::Unavailable,
            #[cfg(feature = "snapshot")]
            "ESnap" => {
                let k = key(&o["p"]);
                let (p, lo, hi) = (self.pool(k), self.tick(k, int(&o["lo"]) as i64), self.tick(k, int(&o["hi"]) as i64));
                let ob = self.last_obs(k);
                if ![p, lo, hi, ob].iter().all(|a| self.exists(a)) {
                    return Built::Probe(Err("missing".into()));
                }
                let (ps, lo, hi): (PoolState, TickState, TickState) =
                    (view(self.data(&p).unwrap()), view(self.data(&lo).unwrap()), view(self.data(&hi).unwrap()));
                let ob: ObservationState = view(self.data(&ob).unwrap());
                let x = self.vm.with(|| {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ps.snapshot_cumulatives_inside(&lo, &hi, &ob)))
                });
                let x = match x {
                    Ok(x) => x,
                    Err(_) => return Built::Probe(Err("panicked".into())),
                };
                let v = [
                    x.tick_cumulative_inside.to_string(),
                    x.seconds_per_liquidity_inside_x32.to_string(),
                    x.seconds_inside.to_string(),
                ];
                return Built::Probe(Ok(vec![json!({"n": "Snapshot", "k": [self.name_json(&p)], "v": v})]));
            }
            "EXfer" => {
                let n = int(&o["n"]) as i64;
                let (sg, mint) = (self.user(&us("s")), self.nmint(n));
                let (from, to, dst) = (self.nacc(n, &us("from")), self.nacc(n, &us("dst")), self.user(&us("dst")));
                let mut l = vec![];
                if !self.exists(&to) && self.exists(&mint) {
                    l.push(spl_associated_token_account::create_associated_token_account(&sg, &dst, &mint));
                }
                l.push(tok(spl_token::instruction::transfer(&spl_token::ID, &from, &to, &sg, &[], 1)));
                return Built::Tx(l);
            }
            "EAppr" => {
                let n = int(&o["n"]) as i64;
                let (sg, d, a) = (self.user(&us("s")), self.user(&us("dst")), self.nacc(n, &us("s")));
                return Built::Tx(vec![tok(spl_token::instruction::approve(
                    &spl_token::ID,
                    &a,
                    &d,
                    &sg,
                    &[],
                    int(&o["amt"]) as u64,
                ))]);
            }
            "ERev" => {
                let n = int(&o["n"]) as i64;
                let (sg, a) = (self.user(&us("s")), self.nacc(n, &us("s")));
                return Built::Tx(vec![tok(spl_token::instruction::revoke(&spl_token::ID, &a, &sg, &[]))]);
            }
            "EFund" => {
                let l = match &o["pl"] {
                    Value::Array(a) => {
                        let t = key(&a[1]);
                        format!("{}/{}/{}/{}/{}/{}/{}", s(&a[0]), t.0, t.1, t.2, s(&a[2]), int(&a[3]), int(&a[4]))
                    }
                    x => panic!("not a place: {}", x),
                };
                let (from, to) = (self.user(&us("s")), self.place(&l).unwrap());
                let amt = int(&o["amt"]) as u64;
                return Built::Tx(vec![solana_program::system_instruction::transfer(&from, &to, amt)]);
            }
            "EDonate" => {
                let k = key(&o["p"]);
                let side = int(&o["side"]) as u8;
                let (sg, v) = (self.user(&us("s")), self.vault(k, side));
                let w = self.wal(&us("s"), if side == 0 { k.0 } else { k.1 });
                return Built::Tx(vec![tok(spl_token::instruction::transfer(
                    &spl_token::ID,
                    &w,
                    &v,
                    &sg,
                    &[],
                    int(&o["amt"]) as u64,
                ))]);
            }
            _ => {}
        }
        let mut ix = self.instruction(&tag, &o, path);
        if tag == "OMint" || tag == "OSwap" {
            let cb = us("cb");
            self.vm.payer.mode = cb.clone();
            self.vm.payer.swap = o.get("zfo").and_then(|z| z.as_bool());
            if let Some(w) = if cb == "other" { Some("other") } else { cb.strip_prefix("re:") } {
                match self.nested(w, &o, path, salt) {
                    Some(x) => self.vm.payer.reenter = Some(x),
                    None => return Built::Vacuous,
                }
            }
        }
        let (slot, kind) = (s(&tx["sub"][0]).to_string(), s(&tx["sub"][1]).to_string());
        if !slot.is_empty() && !self.substitute(&mut ix, &slot, &kind, salt) {
            return Built::Vacuous;
        }
        Built::Tx(vec![ix.finish()])
    }

    /// Environment work after a pool was created: its vaults.
    pub fn after(&mut self, tx: &Value) {
        let o = &tx["op"]["value"];
        if tx["op"]["tag"] == "OCreatePool" {
            let k = (int(&o["t0"]) as i64, int(&o["t1"]) as i64, int(&o["fee"]) as i64);
            let p = self.pool(k);
            for side in 0..2u8 {
                let v = self.vault(k, side);
                let m = self.token(if side == 0 { k.0 } else { k.1 });
                debug_assert_eq!(v, ata(&p, &m));
                if !self.exists(&v) {
                    self.put_token_account(v, m, p, 0);
                }
            }
        }
    }

    // ------------------------------------------------------------------ events
    pub fn name_json(&self, k: &Pubkey) -> Value {
        if *k == Pubkey::default() {
            return json!("zero");
        }
        match self.roles.get(k) {
            Some(Role::User(u)) => json!(format!("user {}", u)),
            Some(Role::Factory) => json!("user fac"),
            Some(Role::Pool(k)) => json!(format!("pool {}/{}/{}", k.0, k.1, k.2)),
            Some(Role::Wal(u, t)) => json!(format!("wallet {}/{}", u, t)),
            Some(Role::NMint(n)) => json!(format!("nft {}", n)),
            Some(Role::Token(t)) => json!(format!("token {}", t)),
            r => json!(format!("{:?}", r)),
        }
    }
    pub fn events(&self) -> Vec<Value> {
        const SCHEMA: &[(&str, &str)] = &[
            ("OwnerChanged", "kk"),
            ("SetFeeProtocolEvent", "11"),
            ("FeeAmountEnabled", "42"),
            ("IncreaseObservationCardinalityNext", "22"),
            ("PoolCreatedAndInitialized", "kk42k8i"),
            ("CollectProtocolEvent", "kkkk88"),
            ("SwapEvent", "kkkkII88i"),
            ("MintEvent", "kkkii888"),
            ("BurnEvent", "kkii888"),
            ("CollectEvent", "kkii88"),
            ("IncreaseLiquidityEvent", "k888"),
            ("DecreaseLiquidityEvent", "k888"),
            ("CollectTokenizedEvent", "kkk88"),
        ];
        let mut out = vec![];
        for l in &self.vm.logs {
            let e = SCHEMA.iter().find(|(n, _)| l.len() >= 8 && disc("event", n) == l[..8]);
            let (n, sch) = match e {
                Some(e) => *e,
                None => continue, // not an event
            };
            let d = R(l);
            let (mut ks, mut vs, mut at) = (vec![], vec![], 8);
            for c in sch.chars() {
                match c {
                    'k' => {
                        ks.push(self.name_json(&d.key(at)));
                        at += 32;
                    }
                    '1' => {
                        vs.push(json!(d.u8(at).to_string()));
                        at += 1;
                    }
                    '2' => {
                        vs.push(json!(d.u16(at).to_string()));
                        at += 2;
                    }
                    '4' => {
                        vs.push(json!(d.u32(at).to_string()));
                        at += 4;
                    }
                    'i' => {
                        vs.push(json!(d.i32(at).to_string()));
                        at += 4;
                    }
                    'I' => {
                        vs.push(json!(d.i64(at).to_string()));
                        at += 8;
                    }
                    _ => {
                        vs.push(json!(d.u64(at).to_string()));
                        at += 8;
                    }
                }
            }
            if at != l.len() {
                vs.push(json!(format!("{} bytes", l.len())));
            }
            out.push(json!({"n": n, "k": ks, "v": vs}));
        }
        out
    }
}

//! Addresses, account roles, and the projection of the program's accounts to a specification state.
use crate::vm::*;
use anchor_lang::prelude::Pubkey;
pub use cyclos_core::states::{
    factory::FactoryState, fee::FeeState, oracle::ObservationState, pool::PoolState, position::PositionState, tick::TickState,
    tick_bitmap::TickBitmapState, tokenized_position::TokenizedPositionState,
};
use serde_json::{json, Map, Value};
use solana_program::{program_option::COption, program_pack::Pack, system_program};
use spl_associated_token_account::get_associated_token_address as ata;
use std::collections::HashMap;

pub type Key = (i64, i64, i64);
pub const FAC: &str = "fac";
/// What everybody starts with.
pub const RICH: u64 = 1_000_000_000_000_000;

#[derive(Clone, PartialEq, Debug)]
pub enum Role {
    User(String),
    Factory,
    Fee(i64),
    Pool(Key),
    Obs(Key, i64),
    Tick(Key, i64),
    Word(Key, i64),
    Pos(Key, String, i64, i64),
    Vault(Key, u8),
    Token(i64),
    Wal(String, i64),
    NMint(i64),
    NRec(i64),
    NAcc(i64, String),
    Spare,
}

pub struct World {
    pub vm: Vm,
    pub roles: HashMap<Pubkey, Role>,
    cache: HashMap<Vec<u8>, (Pubkey, u8)>,
    users: HashMap<String, Pubkey>,
}

const PID: Pubkey = cyclos_core::ID;

fn named(tag: u8, s: &str) -> Pubkey {
    let mut h = solana_program::hash::hash(s.as_bytes()).to_bytes();
    h[0] = tag;
    Pubkey::new_from_array(h)
}

impl World {
    pub fn new(now: i64) -> World {
        let mut vm = Vm::new();
        vm.now = now;
        World { vm, roles: HashMap::new(), cache: HashMap::new(), users: HashMap::new() }
    }
    pub fn pda(&mut self, seeds: &[&[u8]]) -> (Pubkey, u8) {
        let mut k = vec![];
        for s in seeds {
            k.push(s.len() as u8);
            k.extend_from_slice(s);
        }
        *self.cache.entry(k).or_insert_with(|| Pubkey::find_program_address(seeds, &PID))
    }
    fn role(&mut self, a: Pubkey, r: Role) -> Pubkey {
        self.roles.entry(a).or_insert(r);
        a
    }
    pub fn user(&mut self, u: &str) -> Pubkey {
        if u == FAC {
            return self.factory();
        }
        if let Some(k) = self.users.get(u) {
            return *k;
        }
        let k = named(0x55, u);
        self.users.insert(u.into(), k);
        self.vm.accts.insert(
            k,
            Acct { lamports: RICH, data: vec![], owner: system_program::ID, executable: false },
        );
        self.role(k, Role::User(u.into()))
    }
    pub fn factory(&mut self) -> Pubkey {
        let a = self.pda(&[]).0;
        self.role(a, Role::Factory)
    }
    pub fn fee(&mut self, f: i64) -> Pubkey {
        let a = self.pda(&[b"f", &(f as u32).to_be_bytes()]).0;
        self.role(a, Role::Fee(f))
    }
    pub fn token(&mut self, t: i64) -> Pubkey {
        let mut b = [7u8; 32];
        b[0] = 0x10 + t as u8 * 0x20;
        let k = Pubkey::new_from_array(b);
        self.role(k, Role::Token(t))
    }
    pub fn pool(&mut self, k: Key) -> Pubkey {
        let (a, b) = (self.token(k.0), self.token(k.1));
        let x = self.pda(&[b"p", a.as_ref(), b.as_ref(), &(k.2 as u32).to_be_bytes()]).0;
        self.role(x, Role::Pool(k))
    }
    pub fn obs(&mut self, k: Key, i: i64) -> (Pubkey, u8) {
        let (a, b) = (self.token(k.0), self.token(k.1));
        let x = self.pda(&[b"o", a.as_ref(), b.as_ref(), &(k.2 as u32).to_be_bytes(), &(i as u16).to_be_bytes()]);
        self.role(x.0, Role::Obs(k, i));
        x
    }
    pub fn tick(&mut self, k: Key, t: i64) -> Pubkey {
        let (a, b) = (self.token(k.0), self.token(k.1));
        let x = self.pda(&[b"t", a.as_ref(), b.as_ref(), &(k.2 as u32).to_be_bytes(), &(t as i32).to_be_bytes()]).0;
        self.role(x, Role::Tick(k, t))
    }
    pub fn word(&mut self, k: Key, w: i64) -> Pubkey {
        let (a, b) = (self.token(k.0), self.token(k.1));
        let x = self.pda(&[b"b", a.as_ref(), b.as_ref(), &(k.2 as u32).to_be_bytes(), &(w as i16).to_be_bytes()]).0;
        self.role(x, Role::Word(k, w))
    }
    pub fn pos(&mut self, k: Key, o: &str, lo: i64, hi: i64) -> Pubkey {
        let (a, b, u) = (self.token(k.0), self.token(k.1), self.user(o));
        let x = self
            .pda(&[
                b"ps",
                a.as_ref(),
                b.as_ref(),
                &(k.2 as u32).to_be_bytes(),
                u.as_ref(),
                &(lo as i32).to_be_bytes(),
                &(hi as i32).to_be_bytes(),
            ])
            .0;
        self.role(x, Role::Pos(k, o.into(), lo, hi))
    }
    pub fn vault(&mut self, k: Key, side: u8) -> Pubkey {
        let (p, t) = (self.pool(k), self.token(if side == 0 { k.0 } else { k.1 }));
        let x = ata(&p, &t);
        self.role(x, Role::Vault(k, side))
    }
    pub fn wal(&mut self, u: &str, t: i64) -> Pubkey {
        let (o, m) = (self.user(u), self.token(t));
        let x = ata(&o, &m);
        self.role(x, Role::Wal(u.into(), t))
    }
    pub fn nmint(&mut self, n: i64) -> Pubkey {
        let k = named(0xA0, &format!("nft{}", n));
        self.role(k, Role::NMint(n))
    }
    pub fn nrec(&mut self, n: i64) -> Pubkey {
        let m = self.nmint(n);
        let x = self.pda(&[b"ps", m.as_ref()]).0;
        self.role(x, Role::NRec(n))
    }
    pub fn nacc(&mut self, n: i64, u: &str) -> Pubkey {
        let (o, m) = (self.user(u), self.nmint(n));
        let x = ata(&o, &m);
        self.role(x, Role::NAcc(n, u.into()))
    }
    pub fn exists(&self, a: &Pubkey) -> bool {
        self.data(a).is_some()
    }
    pub fn data(&self, a: &Pubkey) -> Option<&[u8]> {
        self.vm.get(a).map(|x| &x.data[..]).filter(|d| !d.is_empty())
    }

    /// Directly create a token account (environment set-up only).
    pub fn put_token_account(&mut self, a: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let mut d = vec![0; spl_token::state::Account::LEN];
        spl_token::state::Account {
            mint,
            owner,
            amount,
            state: spl_token::state::AccountState::Initialized,
            ..Default::default()
        }
        .pack_into_slice(&mut d);
        self.vm.accts.insert(a, Acct { lamports: 2_039_280, data: d, owner: spl_token::ID, executable: false });
    }
    pub fn put_mint(&mut self, a: Pubkey, supply: u64) {
        let mut d = vec![0; spl_token::state::Mint::LEN];
        spl_token::state::Mint {
            mint_authority: COption::Some(named(1, "issuer")),
            supply,
            decimals: 6,
            is_initialized: true,
            freeze_authority: COption::None,
        }
        .pack_into_slice(&mut d);
        self.vm.accts.insert(a, Acct { lamports: 1_461_600, data: d, owner: spl_token::ID, executable: false });
    }
    pub fn token_account(&self, a: &Pubkey) -> Option<spl_token::state::Account> {
        let x = self.vm.get(a)?;
        if x.owner != spl_token::ID {
            return None;
        }
        spl_token::state::Account::unpack(&x.data).ok()
    }

    // ------------------------------------------------------------------ lamports
    /// The name of an address the specification calls a place.
    pub fn place_name(r: &Role) -> Option<String> {
        let none = (-1, -1, -1);
        let (kind, k, u, x, y) = match r {
            Role::Factory => ("factory", none, String::new(), 0, 0),
            Role::Fee(f) => ("tier", none, String::new(), *f, 0),
            Role::Pool(k) => ("pool", *k, String::new(), 0, 0),
            Role::Obs(k, i) => ("obs", *k, String::new(), *i, 0),
            Role::Tick(k, t) => ("tick", *k, String::new(), *t, 0),
            Role::Word(k, w) => ("word", *k, String::new(), *w, 0),
            Role::Pos(k, u, lo, hi) => ("pos", *k, u.clone(), *lo, *hi),
            Role::NRec(n) => ("nft", none, String::new(), *n, 0),
            Role::NMint(n) => ("mint", none, String::new(), *n, 0),
            Role::NAcc(n, u) => ("acc", none, u.clone(), *n, 0),
            _ => return None,
        };
        Some(format!("{}/{}/{}/{}/{}/{}/{}", kind, k.0, k.1, k.2, u, x, y))
    }
    pub fn place(&mut self, name: &str) -> Option<Pubkey> {
        let x: Vec<&str> = name.split('/').collect();
        if x.len() != 7 {
            return None;
        }
        let n = |i: usize| x[i].parse::<i64>().unwrap_or(0);
        let k = (n(1), n(2), n(3));
        Some(match x[0] {
            "factory" => self.factory(),
            "tier" => self.fee(n(5)),
            "pool" => self.pool(k),
            "obs" => self.obs(k, n(5)).0,
            "tick" => self.tick(k, n(5)),
            "word" => self.word(k, n(5)),
            "pos" => self.pos(k, x[4], n(5), n(6)),
            "nft" => self.nrec(n(5)),
            "mint" => self.nmint(n(5)),
            "acc" => self.nacc(n(5), x[4]),
            _ => return None,
        })
    }
    /// What an account needs to be exempt from rent; nothing where there is none.
    pub fn needs(x: &Acct) -> u64 {
        if x.owner == system_program::ID && x.data.is_empty() {
            0
        } else {
            solana_program::rent::Rent::default().minimum_balance(x.data.len())
        }
    }
    fn lamports(&self) -> (Map<String, Value>, Map<String, Value>) {
        let (mut sol, mut gift) = (Map::new(), Map::new());
        for (a, x) in &self.vm.accts {
            match self.roles.get(a) {
                Some(Role::User(u)) => {
                    sol.insert(u.clone(), json!((RICH as i128 - x.lamports as i128).to_string()));
                }
                Some(r) => {
                    let g = x.lamports as i128 - Self::needs(x) as i128;
                    if let (Some(p), true) = (Self::place_name(r), g != 0) {
                        gift.insert(p, json!(g.to_string()));
                    }
                }
                None => {}
            }
        }
        (sol, gift)
    }

    // ------------------------------------------------------------------ projection
    pub fn project(&self) -> Value {
        let mut fac = json!({"ini": false, "owner": "", "fp": "0"});
        let mut tiers = Map::new();
        let mut pools: HashMap<Key, Map<String, Value>> = HashMap::new();
        let mut nfts: HashMap<i64, Map<String, Value>> = HashMap::new();
        let mut nacc: HashMap<i64, Map<String, Value>> = HashMap::new();
        let mut nsup: HashMap<i64, (u64, bool, bool)> = HashMap::new();
        let mut wal = Map::new();
        let mut stray = vec![];
        let mut obs: HashMap<Key, Map<String, Value>> = HashMap::new();
        let mut ticks: HashMap<Key, Map<String, Value>> = HashMap::new();
        let mut poss: HashMap<Key, Map<String, Value>> = HashMap::new();
        let mut words: HashMap<Key, Vec<i64>> = HashMap::new();
        let mut bits: HashMap<Key, Vec<i64>> = HashMap::new();
        let mut vaults: HashMap<(Key, u8), u64> = HashMap::new();
        for (a, x) in &self.vm.accts {
            let role = self.roles.get(a);
            if x.owner == PID {
                let ty = type_of(&x.data);
                match (ty, role) {
                    ("FactoryState", Some(Role::Factory)) => {
                        let s: FactoryState = view(&x.data);
                        fac = json!({"ini": true, "owner": self.name_of(&{ s.owner }), "fp": s.fee_protocol.to_string()});
                    }
                    ("FeeState", Some(Role::Fee(f))) => {
                        let s: FeeState = view(&x.data);
                        tiers.insert(f.to_string(), flag(({ s.tick_spacing }).to_string(), { s.fee } as i64 == *f));
                    }
                    ("PoolState", Some(Role::Pool(k))) => {
                        let s: PoolState = view(&x.data);
                        let ok = self.roles.get(&{ s.token_0 }) == Some(&Role::Token(k.0))
                            && self.roles.get(&{ s.token_1 }) == Some(&Role::Token(k.1))
                            && { s.fee } as i64 == k.2;
                        let mut m = Map::new();
                        let mut put = |n: &str, v: String| {
                            m.insert(n.into(), Value::String(v));
                        };
                        put("sp", ({ s.tick_spacing }).to_string());
                        put("liq", ({ s.liquidity }).to_string());
                        put("price", ({ s.sqrt_price_x32 }).to_string());
                        put("tick", ({ s.tick }).to_string());
                        put("oi", ({ s.observation_index }).to_string());
                        put("card", ({ s.observation_cardinality }).to_string());
                        put("cn", ({ s.observation_cardinality_next }).to_string());
                        put("g0", ({ s.fee_growth_global_0_x32 }).to_string());
                        put("g1", ({ s.fee_growth_global_1_x32 }).to_string());
                        put("p0", ({ s.protocol_fees_token_0 }).to_string());
                        put("p1", ({ s.protocol_fees_token_1 }).to_string());
                        m.insert("unl".into(), Value::Bool(s.unlocked));
                        if !ok {
                            m.insert("identity".into(), json!("changed"));
                        }
                        pools.insert(*k, m);
                    }
                    ("ObservationState", Some(Role::Obs(k, i))) => {
                        let s: ObservationState = view(&x.data);
                        let mut v = json!({"ts": ({ s.block_timestamp }).to_string(), "tc": ({ s.tick_cumulative }).to_string(),
                            "sp": ({ s.seconds_per_liquidity_cumulative_x32 }).to_string(), "ini": s.initialized});
                        if { s.index } as i64 != *i {
                            v["identity"] = json!("changed");
                        }
                        obs.entry(*k).or_default().insert(i.to_string(), v);
                    }
                    ("TickState", Some(Role::Tick(k, t))) => {
                        let s: TickState = view(&x.data);
                        let mut v = json!({"net": ({ s.liquidity_net }).to_string(), "gross": ({ s.liquidity_gross }).to_string(),
                            "f0": ({ s.fee_growth_outside_0_x32 }).to_string(), "f1": ({ s.fee_growth_outside_1_x32 }).to_string(),
                            "tc": ({ s.tick_cumulative_outside }).to_string(),
                            "sp": ({ s.seconds_per_liquidity_outside_x32 }).to_string(), "so": ({ s.seconds_outside }).to_string()});
                        if { s.tick } as i64 != *t {
                            v["identity"] = json!("changed");
                        }
                        ticks.entry(*k).or_default().insert(t.to_string(), v);
                    }
                    ("TickBitmapState", Some(Role::Word(k, w))) => {
                        let s: TickBitmapState = view(&x.data);
                        let ok = { s.word_pos } as i64 == *w;
                        words.entry(*k).or_default().push(if ok { *w } else { 999_999 });
                        let l = { s.word };
                        for b in 0..256usize {
                            if l[b / 64] >> (b % 64) & 1 == 1 {
                                bits.entry(*k).or_default().push(w * 256 + b as i64);
                            }
                        }
                    }
                    ("PositionState", Some(Role::Pos(k, o, lo, hi))) => {
                        let s: PositionState = view(&x.data);
                        let v = json!({"liq": ({ s.liquidity }).to_string(),
                            "f0": ({ s.fee_growth_inside_0_last_x32 }).to_string(), "f1": ({ s.fee_growth_inside_1_last_x32 }).to_string(),
                            "o0": ({ s.tokens_owed_0 }).to_string(), "o1": ({ s.tokens_owed_1 }).to_string()});
                        poss.entry(*k).or_default().insert(format!("{}/{}/{}", o, lo, hi), v);
                    }
                    ("TokenizedPositionState", Some(Role::NRec(n))) => {
                        let s: TokenizedPositionState = view(&x.data);
                        let mut m = Map::new();
                        m.insert(
                            "pool".into(),
                            match self.roles.get(&{ s.pool_id }) {
                                Some(Role::Pool(k)) => json!([k.0.to_string(), k.1.to_string(), k.2.to_string()]),
                                _ => json!("?"),
                            },
                        );
                        let mut put = |n: &str, v: String| {
                            m.insert(n.into(), Value::String(v));
                        };
                        put("lo", ({ s.tick_lower }).to_string());
                        put("hi", ({ s.tick_upper }).to_string());
                        put("liq", ({ s.liquidity }).to_string());
                        put("f0", ({ s.fee_growth_inside_0_last_x32 }).to_string());
                        put("f1", ({ s.fee_growth_inside_1_last_x32 }).to_string());
                        put("o0", ({ s.tokens_owed_0 }).to_string());
                        put("o1", ({ s.tokens_owed_1 }).to_string());
                        if self.roles.get(&{ s.mint }) != Some(&Role::NMint(*n)) {
                            put("identity", "changed".into());
                        }
                        nfts.insert(*n, m);
                    }
                    _ => {
                        if role != Some(&Role::Spare) {
                            stray.push(format!("{:?} {}", role, ty))
                        }
                    }
                }
            } else if x.owner == spl_token::ID {
                match role {
                    Some(Role::NMint(n)) => {
                        if let Ok(m) = spl_token::state::Mint::unpack(&x.data) {
                            let fac = self.roles.iter().find(|(_, r)| **r == Role::Factory).map(|(k, _)| *k);
                            let auth = match m.mint_authority {
                                COption::Some(k) => Some(k) == fac,
                                COption::None => false,
                            };
                            let sound = m.decimals == 0
                                && m.freeze_authority.is_none()
                                && (auth || m.mint_authority.is_none());
                            nsup.insert(*n, (m.supply, auth, sound));
                        }
                    }
                    Some(Role::NAcc(n, u)) => {
                        if let Some(t) = self.token_account(a) {
                            let (del, damt) = match t.delegate {
                                COption::Some(k) => (self.name_of(&k), t.delegated_amount),
                                COption::None => (String::new(), 0),
                            };
                            nacc.entry(*n).or_default().insert(
                                u.clone(),
                                json!({"amt": t.amount.to_string(), "del": del, "damt": damt.to_string()}),
                            );
                        }
                    }
                    Some(Role::Wal(u, t)) => {
                        if let Some(x) = self.token_account(a) {
                            wal.insert(format!("{}/{}", u, t), json!(x.amount.to_string()));
                        }
                    }
                    Some(Role::Vault(k, s)) => {
                        if let Some(x) = self.token_account(a) {
                            vaults.insert((*k, *s), x.amount);
                        }
                    }
                    Some(Role::Spare) => {
                        if let Some(x) = self.token_account(a) {
                            if x.amount != 1_000_000 {
                                stray.push("token account".into());
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut pj = Map::new();
        for (k, mut m) in pools {
            for s in 0..2u8 {
                m.insert(format!("v{}", s), json!(vaults.get(&(k, s)).copied().unwrap_or(0).to_string()));
            }
            m.insert("ticks".into(), Value::Object(ticks.remove(&k).unwrap_or_default()));
            m.insert("obs".into(), Value::Object(obs.remove(&k).unwrap_or_default()));
            m.insert("pos".into(), Value::Object(poss.remove(&k).unwrap_or_default()));
            for (n, v) in [("words", words.remove(&k)), ("bits", bits.remove(&k))] {
                let mut v = v.unwrap_or_default();
                v.sort();
                m.insert(n.into(), Value::Object(v.iter().map(|x| (x.to_string(), json!(true))).collect()));
            }
            pj.insert(format!("{}/{}/{}", k.0, k.1, k.2), Value::Object(m));
        }
        for k in ticks.keys().chain(obs.keys()).chain(poss.keys()).chain(words.keys()) {
            stray.push(format!("accounts without a pool {:?}", k));
        }
        let mut nj = Map::new();
        for (n, mut m) in nfts {
            let (sup, auth, sound) = nsup.remove(&n).unwrap_or((0, false, false));
            m.insert("sup".into(), json!(sup.to_string()));
            m.insert("auth".into(), json!(auth));
            if !sound {
                m.insert("token".into(), json!("divisible, freezable or foreign authority"));
            }
            m.insert("acc".into(), Value::Object(nacc.remove(&n).unwrap_or_default()));
            nj.insert(n.to_string(), Value::Object(m));
        }
        if !nsup.is_empty() {
            stray.push("mint without position".into());
        }
        let (sol, gift) = self.lamports();
        let mut out = json!({"now": self.vm.now.to_string(), "fac": fac, "tiers": tiers, "pools": pj, "nfts": nj, "wal": wal, "sol": sol, "gift": gift});
        if !stray.is_empty() {
            stray.sort();
            out["stray"] = json!(stray);
        }
        out
    }

    pub fn name_of(&self, k: &Pubkey) -> String {
        match self.roles.get(k) {
            Some(Role::User(u)) => u.clone(),
            Some(Role::Factory) => FAC.into(),
            Some(r) => format!("{:?}", r),
            None => format!("?{}", k),
        }
    }
}

fn flag(v: String, ok: bool) -> Value {
    if ok {
        json!(v)
    } else {
        json!(format!("{} (identity changed)", v))
    }
}

thread_local! {
    static DISCS: Vec<([u8; 8], &'static str)> = [
        "FactoryState", "FeeState", "PoolState", "ObservationState", "TickState", "TickBitmapState",
        "PositionState", "TokenizedPositionState",
    ].iter().map(|n| (disc("account", n), *n)).collect();
}
pub fn type_of(d: &[u8]) -> &'static str {
    if d.len() < 8 {
        return "short";
    }
    DISCS.with(|x| x.iter().find(|(c, _)| c == &d[..8]).map(|(_, n)| *n).unwrap_or("unknown"))
}

/// Little-endian field access
/// An account's contents by its declared type (the layout is the compiler's choice).
pub fn view<T: Copy>(d: &[u8]) -> T {
    let n = std::mem::size_of::<T>();
    let mut b = vec![0u8; n];
    if d.len() >= 8 + n {
        b.copy_from_slice(&d[8..8 + n]);
    }
    unsafe { std::ptr::read_unaligned(b.as_ptr() as *const T) }
}

pub fn unview<T: Copy>(d: &mut [u8], v: T) {
    let n = std::mem::size_of::<T>();
    let b = unsafe { std::slice::from_raw_parts(&v as *const T as *const u8, n) };
    d[8..8 + n].copy_from_slice(b);
}

/// Little-endian fields of an event.
pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    fn b<const N: usize>(&self, o: usize) -> [u8; N] {
        let mut r = [0; N];
        if o + N <= self.0.len() {
            r.copy_from_slice(&self.0[o..o + N]);
        }
        r
    }
    pub fn u8(&self, o: usize) -> u8 {
        self.b::<1>(o)[0]
    }
    pub fn u16(&self, o: usize) -> u16 {
        u16::from_le_bytes(self.b(o))
    }
    pub fn i16(&self, o: usize) -> i16 {
        i16::from_le_bytes(self.b(o))
    }
    pub fn u32(&self, o: usize) -> u32 {
        u32::from_le_bytes(self.b(o))
    }
    pub fn i32(&self, o: usize) -> i32 {
        i32::from_le_bytes(self.b(o))
    }
    pub fn u64(&self, o: usize) -> u64 {
        u64::from_le_bytes(self.b(o))
    }
    pub fn i64(&self, o: usize) -> i64 {
        i64::from_le_bytes(self.b(o))
    }
    pub fn key(&self, o: usize) -> Pubkey {
        Pubkey::new_from_array(self.b(o))
    }
}

//! Putting the accounts into a state of the specification (after a difference, so that the steps behind it are compared too).
use crate::ops::int;
use crate::vm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use serde_json::Value;
use solana_program::{program_option::COption, program_pack::Pack};

fn key(s: &str) -> Option<Key> {
    let l: Vec<i64> = s.split('/').filter_map(|x| x.parse().ok()).collect();
    if l.len() == 3 {
        Some((l[0], l[1], l[2]))
    } else {
        None
    }
}
fn g(v: &Value, f: &str) -> i128 {
    int(&v[f])
}

impl World {
    /// An account of the program, present with the edited contents, or absent.
    fn put<T: Copy>(&mut self, a: Pubkey, ty: &str, v: Option<&dyn Fn(&mut T)>) {
        match v {
            None => {
                self.vm.accts.remove(&a);
            }
            Some(f) => {
                if !self.exists(&a) {
                    let mut data = vec![0; 8 + std::mem::size_of::<T>()];
                    data[..8].copy_from_slice(&disc("account", ty));
                    let lamports = solana_program::rent::Rent::default().minimum_balance(data.len());
                    self.vm.accts.insert(a, Acct { lamports, data, owner: cyclos_core::ID, executable: false });
                }
                let d = &mut self.vm.accts.get_mut(&a).unwrap().data;
                let mut s: T = view(d);
                f(&mut s);
                unview(d, s);
            }
        }
    }
    fn put_amount(&mut self, a: Pubkey, amount: u64) -> bool {
        match self.token_account(&a) {
            None => false,
            Some(mut t) => {
                t.amount = amount;
                t.pack_into_slice(&mut self.vm.accts.get_mut(&a).unwrap().data);
                true
            }
        }
    }
    fn adopt_nft(&mut self, n: i64, v: Option<&Value>, real: Option<&Value>) -> bool {
        let (mint, rec) = (self.nmint(n), self.nrec(n));
        let v = match v {
            None => {
                for u in real.map(|r| r["acc"].as_object().unwrap().keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
                    let a = self.nacc(n, &u);
                    self.vm.accts.remove(&a);
                }
                self.vm.accts.remove(&mint);
                self.vm.accts.remove(&rec);
                return true;
            }
            Some(v) => v,
        };
        let p: Vec<i64> = v["pool"].as_array().unwrap().iter().map(|x| int(x) as i64).collect();
        let k = (p[0], p[1], p[2]);
        let pool = self.pool(k);
        let bump = self.pda(&[b"ps", mint.as_ref()]).1;
        self.put::<TokenizedPositionState>(
            rec,
            "TokenizedPositionState",
            Some(&|s| {
                s.bump = bump;
                s.mint = mint;
                s.pool_id = pool;
                s.tick_lower = g(v, "lo") as i32;
                s.tick_upper = g(v, "hi") as i32;
                s.liquidity = g(v, "liq") as u64;
                s.fee_growth_inside_0_last_x32 = g(v, "f0") as u64;
                s.fee_growth_inside_1_last_x32 = g(v, "f1") as u64;
                s.tokens_owed_0 = g(v, "o0") as u64;
                s.tokens_owed_1 = g(v, "o1") as u64;
            }),
        );
        self.put_mint(mint, g(v, "sup") as u64);
        let fac = self.factory();
        let mut m = spl_token::state::Mint::unpack(&self.vm.accts[&mint].data).unwrap();
        m.decimals = 0;
        m.mint_authority = if v["auth"] == true { COption::Some(fac) } else { COption::None };
        m.pack_into_slice(&mut self.vm.accts.get_mut(&mint).unwrap().data);
        let acc = v["acc"].as_object().unwrap();
        if let Some(r) = real {
            for u in r["acc"].as_object().unwrap().keys() {
                if !acc.contains_key(u) {
                    let a = self.nacc(n, u);
                    self.vm.accts.remove(&a);
                }
            }
        }
        for (u, x) in acc {
            let (a, o) = (self.nacc(n, u), self.user(u));
            self.put_token_account(a, mint, o, g(x, "amt") as u64);
            let del = x["del"].as_str().unwrap_or("");
            if !del.is_empty() {
                let d = self.user(del);
                let mut t = self.token_account(&a).unwrap();
                t.delegate = COption::Some(d);
                t.delegated_amount = g(x, "damt") as u64;
                t.pack_into_slice(&mut self.vm.accts.get_mut(&a).unwrap().data);
            }
        }
        true
    }
    fn adopt_creation(&mut self, k: Key, v: &Value) -> bool {
        let (t0, t1, a) = (self.token(k.0), self.token(k.1), self.pool(k));
        let bump = self.pda(&[b"p", t0.as_ref(), t1.as_ref(), &(k.2 as u32).to_be_bytes()]).1;
        self.put::<PoolState>(
            a,
            "PoolState",
            Some(&|s| {
                s.bump = bump;
                s.token_0 = t0;
                s.token_1 = t1;
                s.fee = k.2 as u32;
            }),
        );
        for side in 0..2u8 {
            let x = self.vault(k, side);
            self.put_token_account(x, if side == 0 { t0 } else { t1 }, a, 0);
        }
        let entries = |f: &str| v[f].as_object().unwrap().keys().map(|x| vec![f.to_string(), x.clone()]).collect::<Vec<_>>();
        let mut l: Vec<Vec<String>> = ["liq", "v0", "v1"].iter().map(|x| vec![x.to_string()]).collect();
        for f in ["obs", "ticks", "words", "pos"] {
            l.extend(entries(f));
        }
        l.iter().all(|p| self.adopt_pool(k, p, v))
    }
    fn adopt_pool(&mut self, k: Key, path: &[String], v: &Value) -> bool {
        let (t0, t1) = (self.token(k.0), self.token(k.1));
        let fee = (k.2 as u32).to_be_bytes();
        let f = path[0].as_str();
        let val = &v[f];
        let entry = |i: usize| path.get(i).map(|x| val.get(x.as_str()));
        let num = path.get(1).and_then(|x| x.parse::<i64>().ok());
        match f {
            "v0" | "v1" => {
                let a = self.vault(k, if f == "v0" { 0 } else { 1 });
                self.put_amount(a, g(v, f) as u64)
            }
            "ticks" => {
                let (t, e) = match (num, entry(1)) {
                    (Some(t), Some(e)) => (t, e),
                    _ => return false,
                };
                let a = self.tick(k, t);
                let bump = self.pda(&[b"t", t0.as_ref(), t1.as_ref(), &fee, &(t as i32).to_be_bytes()]).1;
                match e {
                    None => self.put::<TickState>(a, "", None),
                    Some(e) => self.put::<TickState>(
                        a,
                        "TickState",
                        Some(&|s| {
                            s.bump = bump;
                            s.tick = t as i32;
                            s.liquidity_net = g(e, "net") as i64;
                            s.liquidity_gross = g(e, "gross") as u64;
                            s.fee_growth_outside_0_x32 = g(e, "f0") as u64;
                            s.fee_growth_outside_1_x32 = g(e, "f1") as u64;
                            s.tick_cumulative_outside = g(e, "tc") as i64;
                            s.seconds_per_liquidity_outside_x32 = g(e, "sp") as u64;
                            s.seconds_outside = g(e, "so") as u32;
                        }),
                    ),
                }
                true
            }
            "obs" => {
                let (i, e) = match (num, entry(1)) {
                    (Some(t), Some(e)) => (t, e),
                    _ => return false,
                };
                let (a, bump) = self.obs(k, i);
                match e {
                    None => self.put::<ObservationState>(a, "", None),
                    Some(e) => self.put::<ObservationState>(
                        a,
                        "ObservationState",
                        Some(&|s| {
                            s.bump = bump;
                            s.index = i as u16;
                            s.block_timestamp = g(e, "ts") as u32;
                            s.tick_cumulative = g(e, "tc") as i64;
                            s.seconds_per_liquidity_cumulative_x32 = g(e, "sp") as u64;
                            s.initialized = e["ini"] == true;
                        }),
                    ),
                }
                true
            }
            "pos" => {
                let (x, e) = match (path.get(1), entry(1)) {
                    (Some(t), Some(e)) => (t.split('/').map(|x| x.to_string()).collect::<Vec<_>>(), e),
                    _ => return false,
                };
                let (lo, hi): (i64, i64) = match (x[1].parse(), x[2].parse()) {
                    (Ok(l), Ok(h)) => (l, h),
                    _ => return false,
                };
                let (a, o) = (self.pos(k, &x[0], lo, hi), self.user(&x[0]));
                let bump = self
                    .pda(&[b"ps", t0.as_ref(), t1.as_ref(), &fee, o.as_ref(), &(lo as i32).to_be_bytes(), &(hi as i32).to_be_bytes()])
                    .1;
                match e {
                    None => self.put::<PositionState>(a, "", None),
                    Some(e) => self.put::<PositionState>(
                        a,
                        "PositionState",
                        Some(&|s| {
                            s.bump = bump;
                            s.liquidity = g(e, "liq") as u64;
                            s.fee_growth_inside_0_last_x32 = g(e, "f0") as u64;
                            s.fee_growth_inside_1_last_x32 = g(e, "f1") as u64;
                            s.tokens_owed_0 = g(e, "o0") as u64;
                            s.tokens_owed_1 = g(e, "o1") as u64;
                        }),
                    ),
                }
                true
            }
            "words" | "bits" => {
                let n = match num {
                    Some(n) => n,
                    None => return false,
                };
                let w = if f == "words" { n } else { n.div_euclid(256) };
                let a = self.word(k, w);
                let bump = self.pda(&[b"b", t0.as_ref(), t1.as_ref(), &fee, &(w as i16).to_be_bytes()]).1;
                if v["words"].get(w.to_string()).is_none() {
                    self.put::<TickBitmapState>(a, "", None);
                    return true;
                }
                let mut l = [0u64; 4];
                for b in 0..256usize {
                    if v["bits"].get((w * 256 + b as i64).to_string()).is_some() {
                        l[b / 64] |= 1 << (b % 64);
                    }
                }
                self.put::<TickBitmapState>(
                    a,
                    "TickBitmapState",
                    Some(&|s| {
                        s.bump = bump;
                        s.word_pos = w as i16;
                        s.word = l;
                    }),
                );
                true
            }
            _ => {
                let a = self.pool(k);
                if !self.exists(&a) {
                    return false;
                }
                self.put::<PoolState>(
                    a,
                    "PoolState",
                    Some(&|s| {
                        s.tick_spacing = g(v, "sp") as u16;
                        s.liquidity = g(v, "liq") as u64;
                        s.sqrt_price_x32 = g(v, "price") as u64;
                        s.tick = g(v, "tick") as i32;
                        s.observation_index = g(v, "oi") as u16;
                        s.observation_cardinality = g(v, "card") as u16;
                        s.observation_cardinality_next = g(v, "cn") as u16;
                        s.fee_growth_global_0_x32 = g(v, "g0") as u64;
                        s.fee_growth_global_1_x32 = g(v, "g1") as u64;
                        s.protocol_fees_token_0 = g(v, "p0") as u64;
                        s.protocol_fees_token_1 = g(v, "p1") as u64;
                        s.unlocked = v["unl"] == true;
                    }),
                );
                true
            }
        }
    }

    /// Make the accounts hold `exp` where they hold something else; false if that cannot be done.
    pub fn adopt(&mut self, exp: &Value, real: &Value, fields: &[Value]) -> bool {
        for f in fields {
            let path: Vec<String> = f[0].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            let done = match path[0].as_str() {
                "now" => {
                    self.vm.now = g(exp, "now") as i64;
                    true
                }
                "wal" => {
                    let x: Vec<&str> = path[1].split('/').collect();
                    let a = self.wal(x[0], x[1].parse().unwrap_or(0));
                    exp["wal"].get(&path[1]).is_some() && self.put_amount(a, int(&exp["wal"][&path[1]]) as u64)
                }
                // (below)
                "sol" | "gift" => true,
                "fac" => {
                    let e = &exp["fac"];
                    let a = self.factory();
                    let bump = self.pda(&[]).1;
                    let o = self.user(e["owner"].as_str().unwrap_or(""));
                    if e["ini"] == true {
                        self.put::<FactoryState>(
                            a,
                            "FactoryState",
                            Some(&|s| {
                                s.bump = bump;
                                s.owner = o;
                                s.fee_protocol = g(e, "fp") as u8;
                            }),
                        )
                    } else {
                        self.put::<FactoryState>(a, "", None)
                    }
                    true
                }
                "tiers" => {
                    let n: i64 = path[1].parse().unwrap_or(0);
                    let a = self.fee(n);
                    let bump = self.pda(&[b"f", &(n as u32).to_be_bytes()]).1;
                    match exp["tiers"].get(&path[1]) {
                        None => self.put::<FeeState>(a, "", None),
                        Some(e) => self.put::<FeeState>(
                            a,
                            "FeeState",
                            Some(&|s| {
                                s.bump = bump;
                                s.fee = n as u32;
                                s.tick_spacing = int(e) as u16;
                            }),
                        ),
                    }
                    true
                }
                "nfts" => match path[1].parse() {
                    Ok(n) => self.adopt_nft(n, exp["nfts"].get(&path[1]), real["nfts"].get(&path[1])),
                    _ => false,
                },
                "pools" => match (key(&path[1]), exp["pools"].get(&path[1])) {
                    (Some(k), Some(v)) if path.len() > 2 => self.adopt_pool(k, &path[2..], v),
                    (Some(k), Some(v)) => self.adopt_creation(k, v),
                    (Some(k), None) => {
                        let l: Vec<Pubkey> = self
                            .roles
                            .iter()
                            .filter(|(_, r)| match r {
                                Role::Pool(x) | Role::Obs(x, _) | Role::Tick(x, _) | Role::Word(x, _) | Role::Pos(x, _, _, _) | Role::Vault(x, _) => *x == k,
                                _ => false,
                            })
                            .map(|(a, _)| *a)
                            .collect();
                        for a in l {
                            self.vm.accts.remove(&a);
                        }
                        true
                    }
                    _ => false,
                },
                _ => false,
            };
            if !done {
                return false;
            }
        }
        // lamports, wherever they are
        for (u, x) in exp["sol"].as_object().unwrap() {
            let a = self.user(u);
            if let Some(t) = self.vm.accts.get_mut(&a) {
                t.lamports = (RICH as i128 - int(x)) as u64;
            }
        }
        for l in [real, exp] {
            for p in l["gift"].as_object().unwrap().keys() {
                let a = match self.place(p) {
                    Some(a) => a,
                    None => return false,
                };
                let t = self.vm.accts.entry(a).or_default();
                t.lamports = (World::needs(t) as i128 + int(exp["gift"].get(p).unwrap_or(&Value::from(0)))) as u64;
                if t.lamports == 0 {
                    self.vm.accts.remove(&a);
                }
            }
        }
        self.project() == *exp
    }
}

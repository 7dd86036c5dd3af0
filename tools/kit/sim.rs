//! A small world to run operations of the real program in. No specification involved: demonstrations assert
//! what the property says about the observable state.
#![allow(dead_code)]
use crate::ops::*;
use crate::world::*;
use serde_json::{json, Value};

pub struct Sim {
    pub w: World,
    n: usize,
}
pub const U: i64 = 1_650_000_000;

fn strings(v: &Value) -> Value {
    match v {
        Value::Number(n) => json!(n.to_string()),
        Value::Array(a) => Value::Array(a.iter().map(strings).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), strings(v))).collect()),
        v => v.clone(),
    }
}

impl Sim {
    pub fn new() -> Sim {
        let mut w = World::new(U);
        for t in 0..3 {
            let m = w.token(t);
            for u in ["u1", "u2", "u3", "adm", "atk", "new"] {
                let (a, o) = (w.wal(u, t), w.user(u));
                w.put_token_account(a, m, o, 1 << 50);
            }
            w.put_mint(m, 6 << 50);
        }
        w.factory();
        Sim { w, n: 0 }
    }
    /// Try an operation: tag, fields, the additional accounts [["w", 0], ["t", 60], ["o", 1]] (one list per hop).
    pub fn try_sub(&mut self, tag: &str, o: Value, path: Value, sub: (&str, &str)) -> Result<(), String> {
        self.n += 1;
        let tx = json!({"op": {"tag": tag, "value": strings(&o)}, "sub": [sub.0, sub.1]});
        match self.w.build(&tx, &strings(&path), self.n) {
            Built::Clock(t) => {
                self.w.vm.now = t;
                Ok(())
            }
            Built::Probe(_) | Built::Unavailable => unreachable!(),
            Built::Vacuous => panic!("nothing to substitute"),
            Built::Tx(l) => {
                self.w.vm.transact(&l)?;
                self.w.after(&tx);
                Ok(())
            }
        }
    }
    pub fn try_(&mut self, tag: &str, o: Value, path: Value) -> Result<(), String> {
        self.try_sub(tag, o, path, ("", ""))
    }
    pub fn ok(&mut self, tag: &str, o: Value) {
        self.okp(tag, o, json!([]))
    }
    pub fn okp(&mut self, tag: &str, o: Value, path: Value) {
        if let Err(e) = self.try_(tag, o.clone(), json!([path])) {
            panic!("{} {} rejected: {}", tag, o, e)
        }
    }
    pub fn time(&mut self, dt: i64) {
        self.w.vm.now += dt;
    }
    /// factory, one tier, one pool 0/1 at `price`
    pub fn pool(&mut self, fee: i64, sp: i64, price: i64) -> Value {
        self.ok("OInitFactory", json!({"s": "adm"}));
        self.tier(fee, sp);
        self.create(0, 1, fee, price)
    }
    pub fn tier(&mut self, fee: i64, sp: i64) {
        self.ok("OEnableFee", json!({"s": "adm", "fee": fee, "spacing": sp}));
    }
    pub fn create(&mut self, a: i64, b: i64, fee: i64, price: i64) -> Value {
        self.ok("OCreatePool", json!({"s": "u1", "t0": a, "t1": b, "fee": fee, "price": price}));
        json!([a, b, fee])
    }
    /// everything that must exist before liquidity can be put into the range
    pub fn prepare(&mut self, k: &Value, o: &str, lo: i64, hi: i64) {
        let kk = key(&strings(k));
        for t in [lo, hi] {
            let a = self.w.tick(kk, t);
            if !self.w.exists(&a) {
                self.ok("OInitTick", json!({"s": "u1", "p": k, "t": t}));
            }
            let wd = self.w.word_of(kk, t);
            self.word(k, wd);
        }
        let a = self.w.pos(kk, o, lo, hi);
        if !self.w.exists(&a) {
            self.ok("OInitPos", json!({"s": "u1", "p": k, "o": o, "lo": lo, "hi": hi}));
        }
    }
    pub fn word(&mut self, k: &Value, wd: i64) {
        let a = self.w.word(key(&strings(k)), wd);
        if !self.w.exists(&a) {
            self.ok("OInitWord", json!({"s": "u1", "p": k, "wd": wd}));
        }
    }
    pub fn mint(&mut self, k: &Value, o: &str, lo: i64, hi: i64, amt: i64) {
        self.prepare(k, o, lo, hi);
        self.okp("OMint", json!({"s": o, "p": k, "o": o, "lo": lo, "hi": hi, "amt": amt, "cb": "core"}), json!([]));
    }
    pub fn burn(&mut self, k: &Value, o: &str, lo: i64, hi: i64, amt: i64) {
        self.okp("OBurn", json!({"s": o, "p": k, "o": o, "lo": lo, "hi": hi, "amt": amt}), json!([]));
    }
    pub fn swap(&mut self, k: &Value, s: &str, zfo: bool, amt: i64, lim: i64, path: Value) {
        self.okp("OSwap", json!({"s": s, "p": k, "zfo": zfo, "amt": amt, "lim": lim, "cb": "core"}), path);
    }
    /// a new NFT position of u, with everything prepared
    pub fn nft(&mut self, k: &Value, u: &str, n: i64, lo: i64, hi: i64, d0: i64, d1: i64) {
        self.prepare(k, "fac", lo, hi);
        self.okp("ONMint", json!({"s": u, "r": u, "n": n, "p": k, "lo": lo, "hi": hi, "d0": d0, "d1": d1, "m0": 0, "m1": 0,
            "dl": U + 1_000_000_000}), json!([]));
    }
    pub fn state(&self) -> Value {
        self.w.project()
    }
    /// an integer of the state, by its path, e.g. "pools/0\/1\/500/liq" given as parts
    pub fn at(&self, path: &[&str]) -> i128 {
        let mut v = self.w.project();
        for p in path {
            v = v[*p].clone();
        }
        if v.is_null() {
            panic!("nothing at {:?}", path)
        }
        int(&v)
    }
    pub fn pool_at(&self, k: &Value, f: &str) -> i128 {
        let n = format!("{}/{}/{}", k[0], k[1], k[2]);
        self.at(&["pools", &n, f])
    }
    pub fn tick_at(&self, k: &Value, t: i64, f: &str) -> i128 {
        let n = format!("{}/{}/{}", k[0], k[1], k[2]);
        self.at(&["pools", &n, "ticks", &t.to_string(), f])
    }
    pub fn pos_at(&self, k: &Value, o: &str, lo: i64, hi: i64, f: &str) -> i128 {
        let n = format!("{}/{}/{}", k[0], k[1], k[2]);
        self.at(&["pools", &n, "pos", &format!("{}/{}/{}", o, lo, hi), f])
    }
    pub fn obs_at(&self, k: &Value, i: i64, f: &str) -> i128 {
        let n = format!("{}/{}/{}", k[0], k[1], k[2]);
        self.at(&["pools", &n, "obs", &i.to_string(), f])
    }
    pub fn nft_at(&self, n: i64, f: &str) -> i128 {
        self.at(&["nfts", &n.to_string(), f])
    }
    pub fn bal(&self, u: &str, t: i64) -> i128 {
        self.at(&["wal", &format!("{}/{}", u, t)])
    }
    pub fn bits(&self, k: &Value) -> Vec<i64> {
        let n = format!("{}/{}/{}", k[0], k[1], k[2]);
        let mut l: Vec<i64> = self.w.project()["pools"][&n]["bits"].as_object().unwrap().keys().map(|x| x.parse().unwrap()).collect();
        l.sort();
        l
    }
    /// announcements of the last operation: [(name, [values])]
    pub fn events(&self) -> Vec<(String, Vec<i128>)> {
        self.w
            .events()
            .iter()
            .map(|e| {
                (e["n"].as_str().unwrap().to_string(), e["v"].as_array().unwrap().iter().map(int).collect())
            })
            .collect()
    }
}

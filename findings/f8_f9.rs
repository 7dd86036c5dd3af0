use crate::sim::*;
use serde_json::json;
fn rich(s: &mut Sim, u: &str, t: i64, x: u64) {
    let (a, m, o) = (s.w.wal(u, t), s.w.token(t), s.w.user(u));
    s.w.put_token_account(a, m, o, x);
}
pub fn demo(s: &mut Sim) {
    if std::env::args().nth(1).unwrap() == "f8" {
        let k = s.pool(3000, 60, 1 << 32);
        rich(s, "u1", 0, u64::MAX - (1 << 40));
        // an honest provider holds more than half of the counter range of token 0
        for _ in 0..1 { s.mint(&k, "u1", 60, 120, i64::MAX); }
        s.ok("EDonate", json!({"s": "u1", "p": k, "side": 0, "amt": ((1u64 << 63) + (1u64<<62)).to_string()}));
        let v0 = s.pool_at(&k, "v0");
        // liquidity worth about 2^62 + more than WRAP - v0
        s.prepare(&k, "u2", 120, 60000);
        let r = s.try_("OMint", json!({"s": "u2", "p": k, "o": "u2", "lo": 120, "hi": 60000, "amt": (5i64 << 60).to_string(), "cb": "none"}), json!([]));
        println!("vault {} unpaid mint: {:?} events {:?}", v0, r, s.events());
        assert!(r.is_err(), "unpaid mint accepted");
    } else {
        // fee 99.9999%: the fee on an amount of 2^62 does not fit
        let k = s.pool(999999, 60, 1 << 32);
        rich(s, "u1", 0, u64::MAX - (1 << 40));
        rich(s, "u1", 1, u64::MAX - (1 << 40));
        for _ in 0..1 { s.mint(&k, "u1", -60, 60, 1 << 54); }
        let (a0, a1) = (s.bal("u2", 0), s.bal("u2", 1));
        let mut worst = 0.0f64;
        let mut n = 0;
        for j in 0..40000i64 {
            let out = -(1 << 20) * 17 - j * 9999;
            let _ = out;
            let want = -(18_446_744_073_710i64 - 37_000_000_000 + j * 1_000_000);
            let r = s.try_("OSwap", json!({"s": "u2", "p": k, "zfo": true, "amt": want.to_string(), "lim": 65537 + 1, "cb": "core"}), json!([[["w", "0"],["w","-1"]]]));
            if r.is_ok() {
                n += 1;
                let (p, q) = (a0 - s.bal("u2", 0), s.bal("u2", 1) - a1);
                worst = worst.max(q as f64 / p.max(1) as f64);
                println!("paid {} got {}", p, q);
                break;
            }
            else if j < 2 { println!("{:?}", r); }
        }
        println!("{} {}", n, worst);
        assert!(worst < 1.0, "more out than in");
    }
}

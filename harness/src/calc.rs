//! Compare the program's calculations with the specification's tables (traces of calc.qnt).
//!
//!   calc <dir> <out.json>
//!
//! A binary of its own: it needs the signatures of internal functions, which a change may alter freely.
use cyclos_core::libraries::{big_num::U128, full_math::MulDiv, liquidity_amounts, sqrt_price_math, swap_math};
use cyclos_core::states::{oracle::ObservationState, position::PositionState, tick, tick::TickState, tick_bitmap, tick_bitmap::TickBitmapState};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn int(v: &Value) -> i128 {
    match v {
        Value::Number(n) => n.as_i64().unwrap() as i128,
        Value::Object(o) => o["#bigint"].as_str().unwrap().parse().unwrap(),
        _ => panic!("not a number: {}", v),
    }
}

fn some_tick(a: &[i128], tick: i128) -> TickState {
    let mut t = TickState::default();
    t.tick = tick as i32;
    t.liquidity_net = a[0] as i64;
    t.liquidity_gross = a[1] as u64;
    t.fee_growth_outside_0_x32 = a[2] as u64;
    t.fee_growth_outside_1_x32 = a[3] as u64;
    t.tick_cumulative_outside = a[4] as i64;
    t.seconds_per_liquidity_outside_x32 = a[5] as u64;
    t.seconds_outside = a[6] as u32;
    t
}

fn flat(t: &TickState) -> Vec<i128> {
    vec![
        { t.liquidity_net } as i128,
        { t.liquidity_gross } as i128,
        { t.fee_growth_outside_0_x32 } as i128,
        { t.fee_growth_outside_1_x32 } as i128,
        { t.tick_cumulative_outside } as i128,
        { t.seconds_per_liquidity_outside_x32 } as i128,
        { t.seconds_outside } as i128,
    ]
}

/// The program's result; none if it refuses
fn real(what: &str, a: &[i128]) -> Option<Vec<i128>> {
    Some(match what {
        "segment" => {
            let s = swap_math::compute_swap_step(a[0] as u64, a[1] as u64, a[2] as u64, a[3] as i64, a[4] as u32);
            vec![s.sqrt_ratio_next_x32 as i128, s.amount_in as i128, s.amount_out as i128, s.fee_amount as i128]
        }
        "worth0" | "worth1" => {
            let l = if a[3] == 1 { a[2] as i64 } else { -(a[2] as i64) };
            let f = if what == "worth0" { sqrt_price_math::get_amount_0_delta_signed } else { sqrt_price_math::get_amount_1_delta_signed };
            let r = f(a[0] as u64, a[1] as u64, l);
            vec![if l < 0 { r.wrapping_neg() as u64 as i128 } else { r as u64 as i128 }]
        }
        "deposit" => vec![liquidity_amounts::get_liquidity_for_amounts(a[0] as u64, a[1] as u64, a[2] as u64, a[3] as u64, a[4] as u64) as i128],
        "redeem" => {
            let r = liquidity_amounts::get_amounts_for_liquidity(a[0] as u64, a[1] as u64, a[2] as u64, a[3] as u64);
            vec![r.0 as i128, r.1 as i128]
        }
        "ratio" if a[0] == 64 => {
            let (x, y, z) = (a[1] as u64, a[2] as u64, a[3] as u64);
            vec![if a[4] == 1 { x.mul_div_ceil(y, z) } else { x.mul_div_floor(y, z) }? as i128]
        }
        "ratio" => {
            let (x, y, z) = (U128::from(a[1] as u128), U128::from(a[2] as u128), U128::from(a[3] as u128));
            vec![if a[4] == 1 { x.mul_div_ceil(y, z) } else { x.mul_div_floor(y, z) }?.as_u128() as i128]
        }
        "observation" => {
            let mut o = ObservationState::default();
            o.block_timestamp = a[0] as u32;
            o.tick_cumulative = a[1] as i64;
            o.seconds_per_liquidity_cumulative_x32 = a[2] as u64;
            o.initialized = true;
            let n = o.transform(a[3] as u32, a[4] as i32, a[5] as u64);
            vec![{ n.block_timestamp } as i128, { n.tick_cumulative } as i128, { n.seconds_per_liquidity_cumulative_x32 } as i128]
        }
        "bitmap" => {
            let mut b = TickBitmapState::default();
            for x in &a[2..] {
                b.flip_bit(*x as u8);
            }
            let n = b.next_initialized_bit(a[0] as u8, a[1] == 1);
            vec![n.next as i128, n.initialized as i128]
        }
        "place" => {
            let p = tick_bitmap::position(a[0] as i32);
            vec![p.word_pos as i128, p.bit_pos as i128]
        }
        "reference" => {
            let mut t = some_tick(a, a[7]);
            let f = t.update(a[8] as i32, a[9] as i64, a[10] as u64, a[11] as u64, a[12] as u64, a[13] as i64, a[14] as u32, a[15] == 1, u64::MAX).ok()?;
            let mut r = flat(&t);
            r.push(f as i128);
            r
        }
        "crossing" => {
            let mut t = some_tick(a, 0);
            let net = t.cross(a[7] as u64, a[8] as u64, a[9] as u64, a[10] as i64, a[11] as u32);
            let mut r = flat(&t);
            r[0] = net as i128;
            r
        }
        "growth" => {
            let lo = some_tick(&[0, 0, a[1], a[2], 0, 0, 0], a[0]);
            let hi = some_tick(&[0, 0, a[4], a[5], 0, 0, 0], a[3]);
            let (x, y) = tick::get_fee_growth_inside(&lo, &hi, a[6] as i32, a[7] as u64, a[8] as u64);
            vec![x as i128, y as i128]
        }
        "credit" => {
            let mut p = PositionState::default();
            p.liquidity = a[0] as u64;
            p.fee_growth_inside_0_last_x32 = a[1] as u64;
            p.fee_growth_inside_1_last_x32 = a[2] as u64;
            p.tokens_owed_0 = a[3] as u64;
            p.tokens_owed_1 = a[4] as u64;
            p.update(a[5] as i64, a[6] as u64, a[7] as u64).ok()?;
            vec![
                { p.liquidity } as i128,
                { p.fee_growth_inside_0_last_x32 } as i128,
                { p.fee_growth_inside_1_last_x32 } as i128,
                { p.tokens_owed_0 } as i128,
                { p.tokens_owed_1 } as i128,
            ]
        }
        _ => panic!("unknown calculation {}", what),
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut n = serde_json::Map::new();
    let mut bad = vec![];
    for f in std::fs::read_dir(&a[1]).unwrap() {
        let t: Value = serde_json::from_slice(&std::fs::read(f.unwrap().path()).unwrap()).unwrap();
        for st in t["states"].as_array().unwrap() {
            for r in st["rows"].as_array().or_else(|| st["calc::rows"].as_array()).expect("rows") {
                let what = r["what"].as_str().unwrap();
                let arg: Vec<i128> = r["arg"].as_array().unwrap().iter().map(int).collect();
                let res: Vec<i128> = r["res"].as_array().unwrap().iter().map(int).collect();
                let got = catch_unwind(AssertUnwindSafe(|| real(what, &arg))).unwrap_or(None).unwrap_or_default();
                let c = n.entry(what).or_insert(json!(0));
                *c = json!(c.as_u64().unwrap() + 1);
                if got != res && bad.len() < 5000 {
                    let s = |l: &[i128]| l.iter().map(|x| x.to_string()).collect::<Vec<_>>();
                    let fields: Vec<usize> = (0..res.len().max(got.len())).filter(|i| res.get(*i) != got.get(*i)).collect();
                    bad.push(json!({"what": what, "arg": s(&arg), "specification": s(&res), "program": s(&got), "fields": fields}));
                }
            }
        }
    }
    std::fs::write(&a[2], json!({"rows": n, "bad": bad}).to_string()).unwrap();
}

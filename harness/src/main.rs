//! Replays behaviours of the specification (ITF traces) into the real program and compares every step.
//!
//!   replay traces <dir> <out.json> [threads]   all *.itf.json of a directory
//!   replay ticks  <dir> <out.json>             tick/price tables (traces of ticks.qnt)
mod adopt;
mod ops;
mod vm;
mod world;

use ops::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use world::*;

// ---------------------------------------------------------------------- ITF values
fn scalar(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Number(n) => n.to_string(),
        Value::Bool(b) => b.to_string(),
        Value::Array(a) => a.iter().map(scalar).collect::<Vec<_>>().join("/"),
        Value::Object(_) => v.to_string(),
        Value::Null => String::new(),
    }
}
/// integers to decimal strings, tuples to arrays, maps to objects, sets to objects of true
fn norm(v: &Value) -> Value {
    match v {
        Value::Number(n) => json!(n.to_string()),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::Object(o) => {
            if let Some(b) = o.get("#bigint") {
                return b.clone();
            }
            if let Some(t) = o.get("#tup") {
                return norm(t);
            }
            if let Some(Value::Array(m)) = o.get("#map") {
                return Value::Object(m.iter().map(|e| (scalar(&norm(&e[0])), norm(&e[1]))).collect());
            }
            if let Some(Value::Array(m)) = o.get("#set") {
                return Value::Object(m.iter().map(|e| (scalar(&norm(e)), json!(true))).collect());
            }
            Value::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect())
        }
        _ => v.clone(),
    }
}
fn name(v: &Value) -> String {
    let x = scalar(&v["value"]);
    match v["tag"].as_str().unwrap_or("") {
        "NPool" => format!("pool {}", x),
        "NUser" => format!("user {}", x),
        "NWal" => format!("wallet {}", x),
        "NMint" => format!("nft {}", x),
        "NToken" => format!("token {}", x),
        _ => "zero".into(),
    }
}
fn field<'a>(st: &'a Value, f: &str) -> &'a Value {
    let o = st.as_object().unwrap();
    o.iter().find(|(k, _)| *k == f || k.ends_with(&format!("::{}", f))).map(|(_, v)| v).unwrap_or(&Value::Null)
}

fn diff(at: &mut Vec<String>, e: &Value, a: &Value, out: &mut Vec<Value>) {
    if let (Value::Object(x), Value::Object(y)) = (e, a) {
        for (k, v) in x {
            at.push(k.clone());
            match y.get(k) {
                Some(w) => diff(at, v, w, out),
                None => out.push(json!([at, v, "absent"])),
            }
            at.pop();
        }
        for (k, w) in y {
            if !x.contains_key(k) {
                at.push(k.clone());
                out.push(json!([at, "absent", w]));
                at.pop();
            }
        }
    } else if e != a {
        out.push(json!([at, e, a]));
    }
}

const USERS: [&str; 6] = ["u1", "u2", "u3", "adm", "atk", "new"];
const TOKENS: i64 = 3;

fn expected(w: &Value) -> Value {
    let mut w = norm(w);
    for u in USERS {
        for t in 0..TOKENS {
            let m = w["wal"].as_object_mut().unwrap();
            m.entry(format!("{}/{}", u, t)).or_insert(json!("0"));
        }
        w["sol"].as_object_mut().unwrap().entry(u).or_insert(json!("0"));
    }
    w
}

/// A world holding the initial wallets and clock of the first state.
fn start(w: &Value) -> World {
    let mut x = World::new(int(&w["now"]) as i64);
    for t in 0..TOKENS {
        let mut sum = 0u128;
        let m = x.token(t);
        for u in USERS {
            let b = int(&w["wal"][format!("{}/{}", u, t)]) as u64;
            sum += b as u128;
            let (a, o) = (x.wal(u, t), x.user(u));
            x.put_token_account(a, m, o, b);
        }
        x.put_mint(m, sum.min(u64::MAX as u128) as u64);
    }
    x.factory();
    x
}

/// What a worker is executing, for the watchdog.
struct Work {
    at: usize,
    step: usize,
    tx: Value,
    since: Instant,
}
type Slot = Mutex<Option<Work>>;
/// No transaction takes a second; one that takes this long does not terminate.
const PATIENCE: Duration = Duration::from_secs(40);

/// Replaced accounts tried per transaction.
const TRIES: usize = 16;

fn replay(at: usize, file: &str, trace: &Value, overrides: &Value, slot: &Slot) -> Value {
    let states = trace["states"].as_array().unwrap();
    let mut w = start(&expected(field(&states[0], "w")));
    let mut cover: BTreeMap<String, u64> = BTreeMap::new();
    let mut divs = vec![];
    let mut steps = 0;
    let mut hashes = std::collections::BTreeSet::new();
    let mut bump = |k: String| *cover.entry(k).or_insert(0) += 1;
    for (i, st) in states.iter().enumerate().skip(1) {
        let tx = norm(field(st, "tx"));
        let res = norm(field(st, "res"));
        let over = &overrides[i.to_string()];
        let (res, exp) = if over.is_object() {
            (norm(field(over, "res")), expected(field(over, "w")))
        } else {
            (res, expected(field(st, "w")))
        };
        let tag = scalar(&tx["op"]["tag"]);
        let sub = format!("{}:{}", scalar(&tx["sub"][0]), scalar(&tx["sub"][1]));
        steps += 1;
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            eprintln!("STEP {} {}", i, tx);
        }
        *slot.lock().unwrap() = Some(Work { at, step: i, tx: tx.clone(), since: Instant::now() });
        // the same transaction with one account replaced, for replacements the specification says must fail
        let subs: Vec<Vec<String>> = res["subs"]
            .as_object()
            .map(|o| o.keys().map(|k| k.split('/').map(|x| x.to_string()).collect()).collect())
            .unwrap_or_default();
        let tries = TRIES.min(subs.len());
        for j in 0..tries {
            let n = at * 31 + i * 7;
            let x = &subs[(n + j * subs.len() / tries) % subs.len()];
            let mut t = tx.clone();
            t["sub"] = json!(x);
            if let Built::Tx(l) = w.build(&t, &res["path"], n + j) {
                let before = w.vm.accts.clone();
                let sub = format!("{}:{}", x[0], x[1]);
                bump(format!("sub {} {}", tag, sub));
                if w.vm.transact(&l).is_ok() {
                    let mut fields = vec![];
                    let was = expected(field(&states[i - 1], "w"));
                    diff(&mut vec![], &was, &w.project(), &mut fields);
                    w.vm.accts = before;
                    divs.push(json!({
                        "step": i, "tag": tag, "tx": t, "sub": sub, "why": "substituted", "want": false, "ok": true, "err": "",
                        "fields": fields.iter().take(40).collect::<Vec<_>>(), "events": Value::Null, "real": Value::Null,
                    }));
                }
            }
        }
        let mut read = None;
        let (ok, err) = match w.build(&tx, &res["path"], i) {
            Built::Probe(r) => {
                w.vm.logs.clear();
                match r {
                    Ok(l) => {
                        read = Some(l);
                        (true, String::new())
                    }
                    Err(e) => (false, e),
                }
            }
            Built::Clock(t) => {
                w.vm.now = t;
                w.vm.logs.clear();
                (true, String::new())
            }
            Built::Unavailable => {
                slot.lock().unwrap().take();
                bump(format!("unavailable {}", tag));
                continue;
            }
            Built::Vacuous => {
                bump(format!("vacuous {} {}", tag, sub));
                w.vm.logs.clear();
                (false, "vacuous".into())
            }
            Built::Tx(l) => match w.vm.transact(&l) {
                Ok(()) => {
                    w.after(&tx);
                    (true, String::new())
                }
                Err(e) => (false, e),
            },
        };
        slot.lock().unwrap().take();
        let want = res["ok"].as_bool().unwrap();
        bump(format!("{} {} {}", if want { "accept" } else { "reject" }, tag, scalar(&res["why"])));
        if sub != ":" && err != "vacuous" {
            bump(format!("sub {} {}", tag, sub));
        }
        if w.vm.payer.called > 0 {
            bump(format!("payer {} {}", tag, w.vm.payer.mode));
        }
        let real = w.project();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        real.to_string().hash(&mut h);
        hashes.insert(h.finish());
        let mut fields = vec![];
        diff(&mut vec![], &exp, &real, &mut fields);
        let exp_ev: Vec<Value> = res["ev"]
            .as_array()
            .unwrap()
            .iter()
            .map(|e| {
                json!({"n": e["n"], "k": e["k"].as_array().unwrap().iter().map(name).collect::<Vec<_>>(), "v": e["v"]})
            })
            .collect();
        let ev = if !ok { vec![] } else { read.unwrap_or_else(|| w.events()) };
        let ev_differs = ok == want && exp_ev != ev;
        if ok != want || ev_differs || !fields.is_empty() {
            let state = ok != want || !fields.is_empty();
            divs.push(json!({
                "step": i, "tag": tag, "tx": tx, "sub": sub, "why": res["why"], "want": want, "ok": ok, "err": err,
                "fields": fields.iter().take(40).collect::<Vec<_>>(), "events": if ev_differs { json!([exp_ev, ev]) } else { Value::Null },
                "real": if state && divs.is_empty() { real.clone() } else { Value::Null },
            }));
            // go on from where the specification is, if that can be arranged
            if divs.len() > 30 || (!fields.is_empty() && !w.adopt(&exp, &real, &fields)) {
                break;
            }
        }
    }
    let n: Map<String, Value> = cover.into_iter().map(|(k, v)| (k, json!(v))).collect();
    json!({"file": file, "steps": steps, "states": states.len(), "divergences": divs, "cover": n,
        "hashes": hashes.into_iter().collect::<Vec<u64>>()})
}

fn traces(dir: &str, out: &str, threads: usize) {
    let mut files: Vec<String> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path().to_string_lossy().to_string())
        .filter(|f| f.ends_with(".itf.json"))
        .collect();
    files.sort();
    let files = Arc::new(files);
    let at = Arc::new(AtomicUsize::new(0));
    let results = Arc::new(Mutex::new(BTreeMap::new()));
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Mutex::new(None))).collect();
    let handles: Vec<_> = slots
        .iter()
        .map(|slot| {
            let (files, at, results, slot) = (files.clone(), at.clone(), results.clone(), slot.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = at.fetch_add(1, Ordering::SeqCst);
                    if i >= files.len() {
                        break;
                    }
                    let v: Value = serde_json::from_str(&std::fs::read_to_string(&files[i]).unwrap()).unwrap();
                    // expectations recomputed by the specification from recorded real states
                    let o = std::fs::read_to_string(files[i].replace(".itf.json", ".over.json"))
                        .ok()
                        .and_then(|t| serde_json::from_str(&t).ok())
                        .unwrap_or(Value::Null);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replay(i, &files[i], &v, &o, &slot)));
                    let r = r.unwrap_or_else(|_| {
                        eprintln!("{}: {}", files[i], vm::PANIC.with(|p| p.borrow().clone()));
                        std::process::exit(2)
                    });
                    results.lock().unwrap().insert(i, r);
                })
                .unwrap()
        })
        .collect();
    let mut hung = vec![false; threads];
    while (0..threads).any(|i| !hung[i] && !handles[i].is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..threads {
            if hung[i] {
                continue;
            }
            if let Some(w) = &*slots[i].lock().unwrap() {
                if w.since.elapsed() > PATIENCE {
                    hung[i] = true;
                    results.lock().unwrap().insert(
                        w.at,
                        json!({"file": files[w.at], "steps": w.step, "states": 0, "cover": {}, "hashes": [], "divergences": [{
                            "step": w.step, "tag": scalar(&w.tx["op"]["tag"]), "tx": w.tx,
                            "sub": format!("{}:{}", scalar(&w.tx["sub"][0]), scalar(&w.tx["sub"][1])),
                            "why": "", "want": true, "ok": false, "err": "does not terminate", "fields": [], "events": null, "real": null,
                        }]}),
                    );
                }
            }
        }
    }
    let l: Vec<Value> = results.lock().unwrap().values().cloned().collect();
    std::fs::write(out, serde_json::to_string(&l).unwrap()).unwrap();
    std::process::exit(0);
}

/// Compare the program's tick and price conversions with the specification's table (traces of ticks.qnt).
fn ticks(dir: &str, out: &str) {
    use cyclos_core::libraries::tick_math::{get_sqrt_ratio_at_tick as price, get_tick_at_sqrt_ratio as tick};
    let call = |f: &dyn Fn() -> Option<i128>| -> Value {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Some(x)) => json!(x.to_string()),
            _ => json!("-1000000"),
        }
    };
    let bad = Mutex::new(vec![]);
    let mut files: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path().to_string_lossy().to_string()).collect();
    files.sort();
    let total = Mutex::new((0u64, 0u64));
    std::thread::scope(|sc| {
        for f in files.iter().filter(|f| f.ends_with(".itf.json")) {
            let (bad, total) = (&bad, &total);
            sc.spawn(move || {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
                let (mut a, mut b) = (0u64, 0u64);
                for st in v["states"].as_array().unwrap() {
                    for e in norm(field(st, "prices")).as_array().unwrap() {
                        let t = int(&e[0]);
                        let got = call(&|| i32::try_from(t).ok().and_then(|t| price(t).ok()).map(|x| x as i128));
                        a += 1;
                        if got != e[1] {
                            bad.lock().unwrap().push(json!({"what": "price of tick", "of": e[0], "want": e[1], "got": got}));
                        }
                    }
                    for e in norm(field(st, "ticks")).as_array().unwrap() {
                        let p = int(&e[0]);
                        let got = call(&|| u64::try_from(p).ok().and_then(|p| tick(p).ok()).map(|x| x as i128));
                        b += 1;
                        if got != e[1] {
                            bad.lock().unwrap().push(json!({"what": "tick of price", "of": e[0], "want": e[1], "got": got}));
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.0 += a;
                t.1 += b;
            });
        }
    });
    let (n, m) = *total.lock().unwrap();
    let bad = bad.into_inner().unwrap();
    let first: Vec<Value> = bad.iter().take(20).cloned().collect();
    std::fs::write(out, json!({"prices": n, "ticks": m, "wrong": bad.len(), "first": first}).to_string()).unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        vm::PANIC.with(|p| *p.borrow_mut() = m);
    }));
    solana_program::program_stubs::set_syscall_stubs(Box::new(vm::Stubs));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "traces" => traces(&a[2], &a[3], a.get(4).and_then(|x| x.parse().ok()).unwrap_or(8)),
        "ticks" => ticks(&a[2], &a[3]),
        x => panic!("unknown command {}", x),
    }
}

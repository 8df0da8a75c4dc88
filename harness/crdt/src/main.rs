//! Drives real replicas through generated histories and records every read.
//! The judging is done by spec/Crdt/CrdtTrace.tla and spec/Crdt/BufTrace.tla.
use logicaffeine_data::crdt::*;
use serde_json::{json, Value};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Op = Option<(&'static str, Value)>;

trait Rep: Clone + 'static {
    type D: Clone;
    fn new(r: u64) -> Self;
    /// perform a step; what was done, or None if it does not apply here
    fn step(&mut self, s: &Value, id: i64, clock: &mut u64) -> Op;
    fn read(&self) -> Value;
    fn join(&mut self, o: &Self);
    fn version(&self) -> Option<VClock> { None }
    fn delta(&self, _since: &VClock) -> Option<Self::D> { None }
    fn apply(&mut self, _d: &Self::D) {}
    fn pass(&self) -> Self;
    fn same(&self, _o: &Self) -> bool { true }
}

fn upd(id: i64, v: i64, n: i64, ts: u64, p: i64, at: usize, dot: bool) -> Op {
    Some(("upd", json!({"id": id, "v": v, "n": n, "ts": ts, "p": p, "at": at, "dot": dot})))
}
fn del(v: i64) -> Op { Some(("del", json!({"v": v}))) }
fn sorted(mut v: Vec<i64>) -> Value { v.sort(); json!(v) }
macro_rules! pass { () => { fn pass(&self) -> Self { bincode::deserialize(&bincode::serialize(self).expect("serialize")).expect("deserialize") } } }
macro_rules! deltas { ($t:ty) => {
    type D = <$t as DeltaCrdt>::Delta;
    fn version(&self) -> Option<VClock> { Some(DeltaCrdt::version(self)) }
    fn delta(&self, since: &VClock) -> Option<Self::D> { self.delta_since(since).map(|d| bincode::deserialize(&bincode::serialize(&d).expect("serialize")).expect("deserialize")) }
    fn apply(&mut self, d: &Self::D) { self.apply_delta(d) }
} }

impl Rep for GCounter {
    type D = ();
    fn new(r: u64) -> Self { GCounter::with_replica_id(r) }
    fn step(&mut self, s: &Value, id: i64, _: &mut u64) -> Op {
        let n = s["n"].as_i64().unwrap();
        self.increment(n as u64);
        upd(id, 0, n, 0, 0, 0, true)
    }
    fn read(&self) -> Value { json!(self.value()) }
    fn join(&mut self, o: &Self) { self.merge(o) }
    pass!();
}
impl Rep for PNCounter {
    deltas!(PNCounter);
    fn new(r: u64) -> Self { PNCounter::with_replica_id(r) }
    fn step(&mut self, s: &Value, id: i64, _: &mut u64) -> Op {
        let n = s["n"].as_i64().unwrap();
        if s["o"] == "inc" { self.increment(n as u64); upd(id, 0, n, 0, 0, 0, true) } else { self.decrement(n as u64); upd(id, 0, -n, 0, 0, 0, true) }
    }
    fn read(&self) -> Value { json!(self.value()) }
    fn join(&mut self, o: &Self) { self.merge(o) }
    pass!();
}
impl Rep for LWWRegister<i64> {
    type D = ();
    fn new(_: u64) -> Self { LWWRegister::new(0, 0) }
    fn step(&mut self, s: &Value, id: i64, clock: &mut u64) -> Op {
        *clock += s["gap"].as_u64().unwrap();
        let v = s["v"].as_i64().unwrap();
        self.set(v, *clock);
        upd(id, v, 0, *clock, 0, 0, true)
    }
    fn read(&self) -> Value { json!(self.get()) }
    fn join(&mut self, o: &Self) { self.merge(o) }
    pass!();
}
impl Rep for MVRegister<i64> {
    deltas!(MVRegister<i64>);
    fn new(r: u64) -> Self { MVRegister::new(r) }
    fn step(&mut self, s: &Value, id: i64, _: &mut u64) -> Op {
        let v = s["v"].as_i64().unwrap();
        if s["o"] == "set" { self.set(v) } else { self.resolve(v) }
        upd(id, v, 0, 0, 0, 0, true)
    }
    fn read(&self) -> Value { sorted(self.values().into_iter().copied().collect()) }
    fn join(&mut self, o: &Self) { self.merge(o) }
    pass!();
}
impl<B: SetBias> Rep for ORSet<i64, B> {
    deltas!(ORSet<i64, B>);
    fn new(r: u64) -> Self { ORSet::new(r) }
    fn step(&mut self, s: &Value, id: i64, _: &mut u64) -> Op {
        let v = s["v"].as_i64().unwrap();
        match s["o"].as_str().unwrap() {
            "del" => { self.remove(&v); del(v) }
            _ => { if id % 2 == 0 { self.add(v) } else { self.insert(v) }; upd(id, v, 0, 0, 0, 0, true) }
        }
    }
    fn read(&self) -> Value {
        let mut v: Vec<i64> = self.iter().copied().collect();
        v.sort();
        let ok = self.len() == v.len() && self.is_empty() == v.is_empty() && (0..8).all(|x| self.contains(&x) == v.contains(&x));
        if ok { json!(v) } else { json!([-1, -1]) }
    }
    fn join(&mut self, o: &Self) { self.merge(o) }
    fn same(&self, o: &Self) -> bool { self == o }
    pass!();
}
impl Rep for ORMap<i64, PNCounter> {
    deltas!(ORMap<i64, PNCounter>);
    fn new(r: u64) -> Self { ORMap::new(r) }
    fn step(&mut self, s: &Value, id: i64, _: &mut u64) -> Op {
        let (v, n) = (s["v"].as_i64().unwrap(), s["n"].as_i64().unwrap());
        match s["o"].as_str().unwrap() {
            "del" => { self.remove(&v); del(v) }
            "mut" => { self.get_mut(&v)?.decrement(n as u64); upd(id, v, -n, 0, 0, 0, false) }
            _ => { self.get_or_insert(v).increment(n as u64); upd(id, v, n, 0, 0, 0, true) }
        }
    }
    fn read(&self) -> Value {
        let mut v: Vec<(i64, i64)> = self.iter().map(|(k, c)| (*k, c.value())).collect();
        v.sort();
        let mut keys: Vec<i64> = self.keys().copied().collect();
        keys.sort();
        let ok = self.len() == v.len() && self.is_empty() == v.is_empty() && keys == v.iter().map(|x| x.0).collect::<Vec<_>>()
            && (0..8).all(|x| self.contains_key(&x) == keys.contains(&x) && self.get(&x).is_some() == keys.contains(&x));
        if ok { json!(v) } else { json!([[-1, -1], [-1, -1]]) }
    }
    fn join(&mut self, o: &Self) { self.merge(o) }
    pass!();
}
impl Rep for VClock {
    type D = ();
    fn new(_: u64) -> Self { VClock::new() }
    fn step(&mut self, s: &Value, id: i64, _: &mut u64) -> Op {
        let r = s["r"].as_u64().unwrap();
        let before = self.get(r);
        if self.increment(r) != before + 1 { return Some(("bad", json!({}))); }
        upd(id, 0, 0, 0, 0, 0, true)
    }
    fn read(&self) -> Value {
        let v: Vec<(u64, u64)> = (1..=3).map(|r| (r, self.get(r))).filter(|x| x.1 > 0).collect();
        json!(v)
    }
    fn join(&mut self, o: &Self) { self.merge(o) }
    fn same(&self, o: &Self) -> bool { self == o }
    pass!();
}
macro_rules! seq { ($t:ty) => {
    impl Rep for $t {
        deltas!($t);
        fn new(r: u64) -> Self { <$t>::new(r) }
        fn step(&mut self, s: &Value, id: i64, _: &mut u64) -> Op {
            let cur = self.to_vec();
            let at = s["at"].as_u64().unwrap() as usize;
            match s["o"].as_str().unwrap() {
                "del" => { if cur.is_empty() { return None; } let k = at % cur.len(); self.remove(k); del(cur[k]) }
                "append" | "append2" => { self.append(id); upd(id, 0, 0, 0, cur.last().copied().unwrap_or(0), cur.len(), true) }
                "before" => { let k = at % (cur.len() + 1); self.insert_before(k, id); upd(id, 0, 0, 0, if k == 0 { 0 } else { cur[k - 1] }, k, true) }
                _ => { if cur.is_empty() { return None; } let k = at % cur.len(); self.insert_after(k, id); upd(id, 0, 0, 0, cur[k], k + 1, true) }
            }
        }
        fn read(&self) -> Value {
            let v = self.to_vec();
            let ok = self.len() == v.len() && self.is_empty() == v.is_empty() && self.iter().copied().eq(v.iter().copied())
                && (0..v.len()).all(|k| self.get(k) == Some(&v[k])) && self.get(v.len()).is_none();
            if ok { json!(v) } else { json!([-1, -1]) }
        }
        fn join(&mut self, o: &Self) { self.merge(o) }
        pass!();
    }
} }
seq!(RGA<i64>);
seq!(YATA<i64>);

fn run<T: Rep>(case: &Value, ty: &str, out: &mut Vec<Value>) {
    let mut reps: Vec<T> = (1..=3).map(|r| T::new(r)).collect();
    let mut slots: Vec<Option<(VClock, Option<T::D>)>> = vec![];
    // slot numbers of the saves that produced something, as the trace numbers them
    let mut slot_no: Vec<usize> = vec![];
    let mut nslots = 0;
    let mut clock = 0u64;
    let m = |a: &T, b: &T| { let mut x = a.clone(); x.join(b); x };
    for (k, s) in case["steps"].as_array().unwrap().iter().enumerate() {
        let id = k as i64 + 1;
        let ix = |f: &str| s[f].as_u64().unwrap() as usize - 1;
        match s["o"].as_str().unwrap() {
            "merge" => {
                let o = reps[ix("s")].clone();
                reps[ix("r")].join(&o);
                out.push(json!({"e": "merge", "r": ix("r") + 1, "s": ix("s") + 1, "read": reps[ix("r")].read()}));
            }
            "delta" => {
                let v = reps[ix("r")].version().unwrap();
                let d = reps[ix("s")].delta(&v);
                let some = d.is_some();
                match d { Some(d) => reps[ix("r")].apply(&d), None => { let o = reps[ix("s")].clone(); reps[ix("r")].join(&o) } }
                out.push(json!({"e": "delta", "r": ix("r") + 1, "s": ix("s") + 1, "some": some, "read": reps[ix("r")].read()}));
            }
            "save" => {
                let v = reps[ix("r")].version().unwrap();
                let d = reps[ix("s")].delta(&v);
                if d.is_some() {
                    nslots += 1;
                    out.push(json!({"e": "save", "r": ix("r") + 1, "s": ix("s") + 1}));
                }
                slot_no.push(nslots);
                slots.push(d.is_some().then_some((v, d)));
            }
            "apply" => {
                let sl = ix("slot");
                if let Some((v, Some(d))) = &slots[sl] {
                    // only meaningful at a replica that has reached the version the delta starts from
                    if reps[ix("r")].version().unwrap().dominates(v) {
                        let d = d.clone();
                        reps[ix("r")].apply(&d);
                        out.push(json!({"e": "apply", "r": ix("r") + 1, "slot": slot_no[sl], "read": reps[ix("r")].read()}));
                    }
                }
            }
            "pass" => reps[ix("r")] = reps[ix("r")].pass(),
            "laws" => {
                let (a, b, c) = (&reps[ix("a")], &reps[ix("b")], &reps[ix("c")]);
                let ab = m(a, b);
                let abc = m(&ab, c);
                let mut d = vec![];
                if let Some(v) = a.version() {
                    let mut x = a.clone();
                    if let Some(dl) = b.delta(&v) {
                        x.apply(&dl);
                        let mut y = x.clone();
                        y.apply(&dl);
                        d = vec![if ty == "rw" { ab.read() } else { m(&x, b).read() }, x.read(), y.read()];
                    }
                }
                out.push(json!({"e": "laws", "a": ix("a") + 1, "b": ix("b") + 1, "c": ix("c") + 1, "a0": a.read(),
                    "ab": ab.read(), "ba": m(b, a).read(), "aa": m(a, a).read(), "abb": m(&ab, b).read(), "aba": m(&ab, a).read(),
                    "abc": abc.read(), "serde": a.pass().read(), "d": d}));
                out.push(json!({"e": "assoc", "abc": abc.read(), "acb": m(&m(a, c), b).read(), "a_bc": m(a, &m(b, c)).read()}));
            }
            _ => {
                let r = ix("r");
                if let Some((kind, op)) = reps[r].step(s, id, &mut clock) {
                    out.push(json!({"e": kind, "r": r + 1, "op": op, "read": reps[r].read()}));
                }
            }
        }
    }
    // everyone ends up with everything, by every route
    let mut fin = vec![];
    let mut all = vec![];
    for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        let x = m(&m(&reps[p[0]], &reps[p[1]]), &reps[p[2]]);
        fin.push(x.read());
        all.push(x);
    }
    fin.push(m(&reps[0], &m(&reps[1], &reps[2])).read());
    out.push(json!({"e": "final", "reads": fin, "equal": all.iter().all(|x| x.same(&all[0])), "rwsplit": ty == "rw"}));
    if ty == "rga" || ty == "yata" { out.push(json!({"e": "order"})); }
}

fn causal(case: &Value, out: &mut Vec<Value>) {
    // vector clocks again, recording the comparisons
    let mut reps: Vec<VClock> = (0..3).map(|_| VClock::new()).collect();
    let mut o2 = vec![];
    for s in case["steps"].as_array().unwrap() {
        match s["o"].as_str().unwrap() {
            "merge" => { let o = reps[s["s"].as_u64().unwrap() as usize - 1].clone(); reps[s["r"].as_u64().unwrap() as usize - 1].merge(&o); }
            "inc" => { let r = s["r"].as_u64().unwrap(); reps[r as usize - 1].increment(r); }
            _ => {}
        }
    }
    for a in 0..3 { for b in 0..3 { o2.push(json!({"a": a + 1, "b": b + 1, "d": reps[a].dominates(&reps[b]), "c": reps[a].concurrent(&reps[b])})); } }
    out.push(json!({"e": "causal", "dom": o2}));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).unwrap();
    if mode == "tie" {
        // two writes carrying one timestamp, merged both ways
        for ts in [0u64, 1, 7] {
            let (a, b) = (LWWRegister::new(1i64, ts), LWWRegister::new(2i64, ts));
            let (mut ab, mut ba) = (a.clone(), b.clone());
            ab.merge(&b);
            ba.merge(&a);
            println!("{}", json!({"ts": ts, "ab": ab.get(), "ba": ba.get()}));
        }
        return;
    }
    for (no, line) in std::io::stdin().lock().lines().enumerate() {
        let line = line.unwrap();
        let case: Value = serde_json::from_str(&line).unwrap();
        if mode == "buf" { println!("{}", buffer(no, &case)); continue; }
        let ty = case["ty"].as_str().unwrap().to_string();
        let mut out = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| match ty.as_str() {
            "gc" => run::<GCounter>(&case, &ty, &mut out),
            "pnc" => run::<PNCounter>(&case, &ty, &mut out),
            "lww" => run::<LWWRegister<i64>>(&case, &ty, &mut out),
            "mv" => run::<MVRegister<i64>>(&case, &ty, &mut out),
            "aw" => run::<ORSet<i64, AddWins>>(&case, &ty, &mut out),
            "rw" => run::<ORSet<i64, RemoveWins>>(&case, &ty, &mut out),
            "map" => run::<ORMap<i64, PNCounter>>(&case, &ty, &mut out),
            "rga" => run::<RGA<i64>>(&case, &ty, &mut out),
            "yata" => run::<YATA<i64>>(&case, &ty, &mut out),
            "vc" => { run::<VClock>(&case, &ty, &mut out); causal(&case, &mut out) }
            _ => panic!("type"),
        }));
        if r.is_err() { out.push(json!({"e": "panic"})); }
        println!("{}", json!({"id": format!("{ty}-{no}"), "ty": ty, "ev": out}));
    }
}

/// The ring buffer of deltas: pushes with their versions, then what a peer at some version is given.
fn buffer(no: usize, case: &Value) -> Value {
    let vc = |x: &Value| { let mut v = VClock::new(); for (r, n) in x.as_array().unwrap().iter().enumerate() { for _ in 0..n.as_u64().unwrap() { v.increment(r as u64 + 1); } } v };
    let mut b: DeltaBuffer<u64> = DeltaBuffer::new(case["cap"].as_u64().unwrap() as usize);
    let mut ev = vec![];
    for s in case["steps"].as_array().unwrap() {
        if s["o"] == "push" {
            b.push(vc(&s["v"]), s["d"].as_u64().unwrap());
            ev.push(json!({"e": "push", "v": s["v"], "d": s["d"], "len": b.len(), "empty": b.is_empty()}));
        } else {
            let r = b.deltas_since(&vc(&s["v"]));
            ev.push(json!({"e": "ask", "v": s["v"], "some": r.is_some(), "can": b.can_serve(&vc(&s["v"])), "ds": r.unwrap_or_default()}));
        }
    }
    json!({"id": format!("buf-{no}"), "cap": case["cap"], "ev": ev})
}

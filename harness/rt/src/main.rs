//! Drives the real task runtime with puppet tasks and records what happens.
//! The judging is done by spec/Sched/SchedTrace.tla and spec/Sched/Replay.tla.
use logicaffeine_runtime::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
struct Env {
    chans: Vec<ChanId>,
    tasks: Vec<TaskId>,
}

type Log = Arc<Mutex<Vec<Raw>>>;

/// One poll as the puppet saw it (raw ids).
#[derive(Clone, Debug)]
struct Raw {
    inst: usize,
    rv: RtPayload,
    arm: Option<usize>,
    nc: Option<ChanId>,
    sp: Option<TaskId>,
    op: Value,
}

struct Puppet {
    no: usize,
    /// creation number of this task
    inst: usize,
    made: Arc<AtomicUsize>,
    prog: Arc<Vec<Vec<Value>>>,
    pris: Arc<Vec<u8>>,
    pos: usize,
    env: Env,
    log: Log,
    prelude: Vec<Value>,
    out: Vec<String>,
    ws: bool,
}

fn pay(v: &Value) -> RtPayload {
    match v.as_str() {
        Some(s) if s.starts_with('i') => RtPayload::Int(s[1..].parse().unwrap_or(0)),
        _ => RtPayload::Nothing,
    }
}
fn show(p: &RtPayload) -> String {
    match p {
        RtPayload::Nothing => "N".into(),
        RtPayload::Int(i) => format!("i{i}"),
        RtPayload::Bool(true) => "T".into(),
        RtPayload::Bool(false) => "F".into(),
        other => format!("?{other:?}"),
    }
}

impl Puppet {
    fn chan(&self, op: &Value) -> Option<ChanId> {
        let n = self.env.chans.len();
        if n == 0 { return None; }
        Some(self.env.chans[op["c"].as_u64().unwrap_or(0) as usize % n])
    }
    fn task(&self, op: &Value) -> Option<TaskId> {
        let n = self.env.tasks.len();
        if n == 0 { return None; }
        Some(self.env.tasks[op["t"].as_u64().unwrap_or(0) as usize % n])
    }
}

impl<'t> Task<'t> for Puppet {
    fn priority(&self) -> u8 {
        self.pris.get(self.no).copied().unwrap_or(0)
    }
    fn take_output(&mut self) -> Vec<String> {
        std::mem::take(&mut self.out)
    }
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
        if let Some(c) = ctx.new_chan { self.env.chans.push(c); }
        if let Some(t) = ctx.spawned { self.env.tasks.push(t); }
        let op = if !self.prelude.is_empty() {
            self.prelude.remove(0)
        } else if self.pos < self.prog[self.no].len() {
            self.pos += 1;
            self.prog[self.no][self.pos - 1].clone()
        } else {
            self.pos += 1;
            json!({"o": "exit", "v": format!("i{}", 9000 + self.no)})
        };
        let yld = json!({"o": "yield"});
        let kind = op["o"].as_str().unwrap_or("yield").to_string();
        // unique values so that a swap between two messages is visible
        let uniq = format!("i{}", (self.no + 1) * 1000 + self.pos);
        let (rec, step): (Value, TaskStep<'t>) = match kind.as_str() {
            "send" | "trysend" => match self.chan(&op) {
                Some(c) => {
                    let r = json!({"o": kind, "c": c.0, "v": uniq});
                    let p = pay(&r["v"]);
                    (r, if kind == "send" { TaskStep::Send(c, p) } else { TaskStep::TrySend(c, p) })
                }
                None => (yld, TaskStep::Yield),
            },
            "recv" | "tryrecv" | "close" => match self.chan(&op) {
                Some(c) => (
                    json!({"o": kind, "c": c.0}),
                    match kind.as_str() {
                        "recv" => TaskStep::Recv(c),
                        "tryrecv" => TaskStep::TryRecv(c),
                        _ => TaskStep::Close(c),
                    },
                ),
                None => (yld, TaskStep::Yield),
            },
            "select" => {
                let mut arms = vec![];
                let mut rec = vec![];
                for a in op["arms"].as_array().unwrap() {
                    if a["a"] == "after" {
                        let d = a["d"].as_u64().unwrap();
                        arms.push(SelectArm::Timeout(d));
                        rec.push(json!({"a": "after", "d": d, "c": 0}));
                    } else if let Some(c) = self.chan(a) {
                        arms.push(SelectArm::Recv(c));
                        rec.push(json!({"a": "recv", "c": c.0, "d": 0}));
                    }
                }
                if arms.is_empty() { (yld, TaskStep::Yield) } else { (json!({"o": "select", "arms": rec}), TaskStep::Select(arms)) }
            }
            "sleep" => { let d = op["d"].as_u64().unwrap(); (json!({"o": "sleep", "d": d}), TaskStep::Sleep(d)) }
            "newchan" => {
                let c = op["cap"].as_i64().unwrap();
                (json!({"o": "newchan", "cap": c}), TaskStep::NewChan(if c < 0 { None } else { Some(c as usize) }))
            }
            "spawn" => {
                let k = op["k"].as_u64().unwrap() as usize;
                if self.ws {
                    let mut args: Vec<RtPayload> = self.env.chans.iter().map(|c| RtPayload::Chan(*c)).collect();
                    args.extend(self.env.tasks.iter().map(|t| RtPayload::TaskHandle(*t)));
                    (json!({"o": "spawn", "pri": 0}), TaskStep::SpawnDesc { func: k as u16, args, want_handle: true })
                } else {
                    let child = Puppet {
                        no: k, inst: self.made.fetch_add(1, Ordering::SeqCst), made: self.made.clone(), prog: self.prog.clone(), pris: self.pris.clone(), pos: 0, env: self.env.clone(),
                        log: self.log.clone(), prelude: vec![], out: vec![], ws: false,
                    };
                    let pri = self.pris.get(k).copied().unwrap_or(0);
                    (json!({"o": "spawn", "pri": pri}), TaskStep::Spawn(Box::new(child)))
                }
            }
            "await" | "abort" => match self.task(&op) {
                Some(t) => (json!({"o": kind, "t": t.0}), if kind == "await" { TaskStep::Await(t) } else { TaskStep::Abort(t) }),
                None => (yld, TaskStep::Yield),
            },
            "io" if !self.ws => (json!({"o": "io"}), TaskStep::IoPending),
            "exit" => { let p = pay(&op["v"]); (json!({"o": "exit", "v": show(&p)}), TaskStep::Exit(p)) }
            _ => (yld, TaskStep::Yield),
        };
        let line = format!("t{} {} {:?} {}", self.no, show(&ctx.resumed_with), ctx.selected_arm, rec["o"].as_str().unwrap());
        self.out.push(line);
        self.log.lock().unwrap().push(Raw { inst: self.inst, rv: ctx.resumed_with.clone(), arm: ctx.selected_arm, nc: ctx.new_chan, sp: ctx.spawned, op: rec });
        step
    }
}

fn policy(name: &str) -> SchedulePolicy {
    match name {
        "fifo" => SchedulePolicy::Fifo,
        "lifo" => SchedulePolicy::Lifo,
        "rr" => SchedulePolicy::RoundRobin,
        "random" => SchedulePolicy::Random,
        _ => SchedulePolicy::Priority,
    }
}

/// raw id -> number in order of creation
#[derive(Default)]
struct Canon { t: HashMap<u64, i64>, c: HashMap<u64, i64> }
impl Canon {
    fn learn(&mut self, s: &SchedSnapshot) {
        for t in &s.tasks { let n = self.t.len() as i64; self.t.entry(t.id.0).or_insert(n); }
        for c in &s.channels { let n = self.c.len() as i64; self.c.entry(c.id.0).or_insert(n); }
    }
    fn task(&self, id: u64) -> i64 { *self.t.get(&id).unwrap_or(&-7) }
    fn chan(&self, id: u64) -> i64 { *self.c.get(&id).unwrap_or(&-7) }
    fn op(&self, v: &Value) -> Value {
        let mut v = v.clone();
        if let Some(c) = v.get("c").and_then(|c| c.as_u64()) { v["c"] = json!(self.chan(c)); }
        if let Some(t) = v.get("t").and_then(|t| t.as_u64()) { v["t"] = json!(self.task(t)); }
        if let Some(arms) = v.get_mut("arms").and_then(|a| a.as_array_mut()) {
            for a in arms { if a["a"] == "recv" { let c = a["c"].as_u64().unwrap(); a["c"] = json!(self.chan(c)); } }
        }
        v
    }
}

fn kind(k: TaskStateKind) -> &'static str {
    match k {
        TaskStateKind::Ready => "ready",
        TaskStateKind::BlockedRecv => "recv",
        TaskStateKind::BlockedSend => "send",
        TaskStateKind::BlockedSelect => "select",
        TaskStateKind::BlockedTimer => "sleep",
        TaskStateKind::BlockedAwait => "await",
        TaskStateKind::BlockedIo => "io",
        TaskStateKind::Done => "done",
    }
}

fn snap(s: &SchedSnapshot) -> Value {
    json!({
        "clock": s.clock, "ready": s.ready_len,
        "t": s.tasks.iter().map(|t| kind(t.kind)).collect::<Vec<_>>(),
        "c": s.channels.iter().map(|c| json!({"d": c.depth, "s": c.blocked_senders, "r": c.blocked_receivers > 0, "x": c.closed})).collect::<Vec<_>>(),
    })
}

fn outcome(o: &RunOutcome) -> String {
    match o {
        RunOutcome::Done(v) => format!("done:{}", show(v)),
        RunOutcome::Deadlock => "deadlock".into(),
        RunOutcome::WaitingForIo => "io".into(),
    }
}

struct Prog { chans: Vec<i64>, first: usize, prog: Arc<Vec<Vec<Value>>>, pris: Arc<Vec<u8>> }

fn parse(v: &Value) -> Prog {
    Prog {
        chans: v["chans"].as_array().unwrap().iter().map(|c| c.as_i64().unwrap()).collect(),
        first: v["first"].as_u64().unwrap() as usize,
        prog: Arc::new(v["prog"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().clone()).collect()),
        pris: Arc::new(v["pri"].as_array().unwrap().iter().map(|p| p.as_u64().unwrap() as u8).collect()),
    }
}

fn setup(s: &mut Scheduler<'static>, p: &Prog, log: &Log) {
    let chans: Vec<ChanId> = p.chans.iter().map(|c| s.new_chan(if *c < 0 { None } else { Some(*c as usize) })).collect();
    // task ids are handed out by the scheduler; the puppets learn them afterwards
    let shared: Vec<Arc<Mutex<Vec<TaskId>>>> = (0..p.first).map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let mut ids = vec![];
    let made = Arc::new(AtomicUsize::new(p.first));
    for no in 0..p.first {
        let t = Late { inner: Puppet {
            no, inst: no, made: made.clone(), prog: p.prog.clone(), pris: p.pris.clone(), pos: 0,
            env: Env { chans: chans.clone(), tasks: vec![] }, log: log.clone(), prelude: vec![], out: vec![], ws: false,
        }, ids: shared[no].clone(), done: false };
        ids.push(if no == 0 { s.spawn_main(Box::new(t)) } else { s.spawn(Box::new(t)) });
    }
    for sh in &shared { *sh.lock().unwrap() = ids.clone(); }
}

/// gives an initial puppet the ids of all initial tasks before its first step
struct Late { inner: Puppet, ids: Arc<Mutex<Vec<TaskId>>>, done: bool }
impl<'t> Task<'t> for Late {
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
        if !self.done { self.inner.env.tasks = self.ids.lock().unwrap().clone(); self.done = true; }
        self.inner.poll(ctx)
    }
    fn priority(&self) -> u8 { <Puppet as Task<'t>>::priority(&self.inner) }
    fn take_output(&mut self) -> Vec<String> { <Puppet as Task<'t>>::take_output(&mut self.inner) }
}

const MAX_STEPS: usize = 400;

/// Step the scheduler one poll at a time and record everything observable.
fn record(p: &Prog, pol: &str, seed: u64, dflt: usize) -> (Vec<Value>, Option<SchedTrace>) {
    let log: Log = Default::default();
    let cfg = SchedulerConfig::default().with_policy(policy(pol)).with_channel_capacity(dflt);
    let mut s: Scheduler<'static> = Scheduler::new(cfg, Chooser::record(SchedSeed(seed)));
    setup(&mut s, p, &log);
    let mut canon = Canon::default();
    canon.learn(&s.snapshot());
    let mut ev = vec![];
    let mut wakes = 0;
    for _ in 0..MAX_STEPS {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.poll_once()));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                ev.push(json!({"e": "panic", "msg": m}));
                return (ev, None);
            }
        };
        let polls: Vec<Raw> = std::mem::take(&mut *log.lock().unwrap());
        let after = s.snapshot();
        if let Some(o) = r {
            ev.push(json!({"e": "end", "out": outcome(&o), "polls": polls.len()}));
            if matches!(o, RunOutcome::WaitingForIo) && wakes < 6 {
                wakes += 1;
                s.wake_io();
                ev.push(json!({"e": "wakeio", "snap": snap(&s.snapshot())}));
                continue;
            }
            break;
        }
        if polls.is_empty() {
            ev.push(json!({"e": "tick", "snap": snap(&after)}));
            continue;
        }
        // ids used by the op are known before the step, ids created by it after
        let raw = &polls[0];
        let op = canon.op(&raw.op);
        let (rv, arm) = (show(&raw.rv), raw.arm.map(|a| a as i64).unwrap_or(-1));
        let (nc, sp) = (raw.nc.map(|c| canon.chan(c.0)).unwrap_or(-1), raw.sp.map(|t| canon.task(t.0)).unwrap_or(-1));
        canon.learn(&after);
        ev.push(json!({"e": if polls.len() == 1 { "poll" } else { "multi" }, "t": raw.inst, "rv": rv, "arm": arm, "nc": nc, "sp": sp, "op": op, "snap": snap(&after)}));
    }
    (ev, Some(s.into_trace()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mode = args[1].as_str();
    let seed: u64 = args[2].parse().unwrap();
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for (n, line) in stdin.lock().lines().enumerate() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        match mode {
            "trace" => {
                for (k, pol) in ["fifo", "lifo", "rr", "random", "random", "random", "priority"].iter().enumerate() {
                    let sd = seed.wrapping_mul(1_000_003).wrapping_add((n * 16 + k) as u64);
                    writeln!(out, "{}", trace_case(&v, n, k, pol, sd)).unwrap();
                }
            }
            "replay" => writeln!(out, "{}", replay::case(&v, n, seed)).unwrap(),
            _ => panic!("mode"),
        }
        out.flush().unwrap();
    }
}

fn trace_case(v: &Value, n: usize, k: usize, pol: &str, sd: u64) -> Value {
    let p = parse(v);
    let (ev, _) = record(&p, pol, sd, 1);
    json!({"id": format!("p{n}.{pol}.{k}"), "policy": pol, "dflt": 1, "chans": p.chans,
           "tasks": p.pris[..p.first].to_vec(), "ev": ev})
}
mod replay;

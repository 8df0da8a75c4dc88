//! Runs one program several ways that must be indistinguishable.
use crate::*;

fn lines(log: &Log, canon: bool) -> Vec<String> {
    let _ = canon;
    log.lock().unwrap().iter().map(|r| {
        format!("{} {} {:?} {:?} {:?} {}", r.inst, show(&r.rv), r.arm, r.nc, r.sp, r.op)
    }).collect()
}

fn trace_lines(t: &SchedTrace) -> Vec<String> {
    t.choices.iter().map(|c| format!("choice {:?} {} {}", c.kind, c.options, c.chosen)).collect()
}

enum How { Run, Poll, Slice(usize) }

fn go(p: &Prog, pol: &str, chooser: Chooser, how: How) -> (Vec<String>, Option<SchedTrace>) {
    let log: Log = Default::default();
    let l2 = log.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let cfg = SchedulerConfig::default().with_policy(policy(pol)).with_channel_capacity(1);
        let mut s: Scheduler<'static> = Scheduler::new(cfg, chooser);
        setup(&mut s, p, &l2);
        let mut outs = vec![];
        for _ in 0..7 {
            let o = match how {
                How::Run => s.run(),
                How::Poll => loop { if let Some(o) = s.poll_once() { break o; } },
                How::Slice(k) => {
                    let mut guard = 0;
                    loop {
                        if s.run_slice(0).is_some() { outs.push("slice(0) ended the run".into()); }
                        if let Some(o) = s.run_slice(k) { break o; }
                        guard += 1;
                        if guard > 5000 { outs.push("no progress".into()); break RunOutcome::Deadlock; }
                    }
                }
            };
            outs.push(format!("outcome {} clock {}", outcome(&o), s.snapshot().clock));
            if !matches!(o, RunOutcome::WaitingForIo) { break; }
            s.wake_io();
        }
        (outs, s.into_trace())
    }));
    let mut out = lines(&log, true);
    match r {
        Ok((o, t)) => { out.extend(o); out.extend(trace_lines(&t)); (out, Some(t)) }
        Err(_) => { out.push("panic".into()); (out, None) }
    }
}

/// The same program with a main task that creates the channels and spawns the
/// other initial tasks itself (the only shape the work-stealing driver takes).
fn prelude(p: &Prog) -> Vec<Value> {
    let mut v: Vec<Value> = p.chans.iter().map(|c| json!({"o": "newchan", "cap": if *c < 0 { 40 } else { *c }})).collect();
    v.extend((1..p.first).map(|k| json!({"o": "spawn", "k": k})));
    v
}

fn puppet(p: &(Arc<Vec<Vec<Value>>>, Arc<Vec<u8>>), no: usize, env: Env, pre: Vec<Value>, ws: bool, made: Arc<AtomicUsize>, log: Log) -> Puppet {
    Puppet { no, inst: no, made, prog: p.0.clone(), pris: p.1.clone(), pos: 0, env, log, prelude: pre, out: vec![], ws }
}

fn ws(p: &Prog, pol: &'static str, seed: u64, workers: usize) -> Vec<String> {
    let data = (p.prog.clone(), Arc::new(vec![0u8; p.pris.len()]));
    let pre = prelude(p);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let cfg = SchedulerConfig::default().with_policy(policy(pol)).with_channel_capacity(1).with_workers(workers);
            let main = SpawnDesc { func: 0, args: vec![], priority: 0, is_main: true };
            let build = move |d: SpawnDesc| -> Box<dyn Task<'static> + 'static> {
                let mut env = Env { chans: vec![], tasks: vec![] };
                for a in &d.args {
                    match a { RtPayload::Chan(c) => env.chans.push(*c), RtPayload::TaskHandle(t) => env.tasks.push(*t), _ => {} }
                }
                let pre = if d.is_main { pre.clone() } else { vec![] };
                Box::new(puppet(&data, d.func as usize, env, pre, true, Arc::new(AtomicUsize::new(1)), Default::default()))
            };
            let o = run_workstealing_seeded(cfg, SchedSeed(seed), main, build);
            let mut out = o.output;
            out.push(format!("outcome {}", outcome(&o.outcome)));
            out.extend(trace_lines(&o.trace));
            out
        }));
        let _ = tx.send(r.unwrap_or_else(|_| vec!["panic".into()]));
    });
    rx.recv_timeout(std::time::Duration::from_secs(20)).unwrap_or_else(|_| vec!["hang".into()])
}

/// cooperative run of the same prelude program, with the same per-slice output
fn coop(p: &Prog, pol: &str, seed: u64) -> Vec<String> {
    struct Tee(Puppet, Arc<Mutex<Vec<String>>>);
    impl<'t> Task<'t> for Tee {
        fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
            let s = self.0.poll(ctx);
            self.1.lock().unwrap().extend(<Puppet as Task<'t>>::take_output(&mut self.0));
            match s {
                TaskStep::SpawnDesc { func, args, .. } => {
                    let mut env = Env { chans: vec![], tasks: vec![] };
                    for a in &args {
                        match a { RtPayload::Chan(c) => env.chans.push(*c), RtPayload::TaskHandle(t) => env.tasks.push(*t), _ => {} }
                    }
                    let data = (self.0.prog.clone(), self.0.pris.clone());
                    let k = puppet(&data, func as usize, env, vec![], true, self.0.made.clone(), self.0.log.clone());
                    TaskStep::Spawn(Box::new(Tee(k, self.1.clone())))
                }
                s => s,
            }
        }
    }
    let sink: Arc<Mutex<Vec<String>>> = Default::default();
    let s2 = sink.clone();
    let data = (p.prog.clone(), Arc::new(vec![0u8; p.pris.len()]));
    let pre = prelude(p);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let cfg = SchedulerConfig::default().with_policy(policy(pol)).with_channel_capacity(1);
        let (o, t) = run_with_seed(cfg, SchedSeed(seed), |s: &mut Scheduler<'static>| {
            let m = puppet(&data, 0, Env { chans: vec![], tasks: vec![] }, pre, true, Arc::new(AtomicUsize::new(1)), Default::default());
            s.spawn_main(Box::new(Tee(m, s2.clone())));
        });
        (outcome(&o), trace_lines(&t))
    }));
    let mut out = sink.lock().unwrap().clone();
    match r {
        Ok((o, t)) => { out.push(format!("outcome {o}")); out.extend(t); }
        Err(_) => out.push("panic".into()),
    }
    out
}

pub fn case(v: &Value, n: usize, seed: u64) -> Value {
    let p = parse(v);
    let pols = ["fifo", "lifo", "rr", "random", "priority"];
    let pol = if n % 2 == 0 { "random" } else { pols[(n / 2) % 5] };
    let sd = seed.wrapping_mul(7_777_777).wrapping_add(n as u64);
    let rec = || Chooser::record(SchedSeed(sd));
    let (base, tr) = go(&p, pol, rec(), How::Run);
    let mut runs = vec![json!({"how": "run", "log": base})];
    runs.push(json!({"how": "rerun", "log": go(&p, pol, rec(), How::Run).0}));
    runs.push(json!({"how": "poll_once", "log": go(&p, pol, rec(), How::Poll).0}));
    for k in [1usize, 3, 1 + n % 11] {
        runs.push(json!({"how": format!("slices of {k}"), "log": go(&p, pol, rec(), How::Slice(k)).0}));
    }
    if let Some(t) = tr {
        runs.push(json!({"how": "replay", "log": go(&p, pol, Chooser::replay(t.clone()), How::Run).0}));
        runs.push(json!({"how": "replay in slices", "log": go(&p, pol, Chooser::replay(t), How::Slice(2)).0}));
    }
    let mut wsr = vec![];
    for w in [1usize, 2, 3, 4] {
        wsr.push(json!({"how": format!("{w} workers"), "log": ws(&p, pol, sd, w)}));
    }
    wsr.push(json!({"how": "3 workers again", "log": ws(&p, pol, sd, 3)}));
    let mut groups = vec![json!({"name": "cooperative", "runs": runs}), json!({"name": "workers", "runs": wsr})];
    let fifo = vec![
        json!({"how": "cooperative", "log": coop(&p, "fifo", sd)}),
        json!({"how": "1 worker", "log": ws(&p, "fifo", sd, 1)}),
        json!({"how": "4 workers", "log": ws(&p, "fifo", sd, 4)}),
    ];
    groups.push(json!({"name": "fifo: workers vs cooperative", "runs": fifo}));
    json!({"id": format!("r{n}"), "policy": pol, "groups": groups})
}

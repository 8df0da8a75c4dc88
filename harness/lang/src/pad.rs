//! A pad's life: seals, crashes inside the ledger, restarts, deliveries of every kind.
use logicaffeine_compile::concurrency::pnp::{frame_offset, FileLedger, PadLedgerStore, PadPool, PnpSuite, Role, MAC_KEY_LEN};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

/// A ledger that survives the process and can be told to kill it around a commit.
struct Durable {
    kept: Mutex<u64>,
    file: Option<FileLedger>,
    die: Mutex<Option<&'static str>>,
}

impl PadLedgerStore for Durable {
    fn load_cursor(&self) -> u64 {
        match &self.file {
            Some(f) => f.load_cursor(),
            None => *self.kept.lock().unwrap(),
        }
    }
    fn commit_cursor(&self, cursor: u64) {
        let die = self.die.lock().unwrap().take();
        if die == Some("before") {
            panic!("dies before the commit");
        }
        match &self.file {
            Some(f) => f.commit_cursor(cursor),
            None => *self.kept.lock().unwrap() = cursor,
        }
        if die == Some("after") {
            panic!("dies after the commit");
        }
    }
}

struct Rec {
    who: usize,
    frame: Vec<u8>,
    plain: Vec<u8>,
    off: i64,
    end: i64,
    roll: bool,
}

fn noise(len: usize, seed: u64) -> Vec<u8> {
    let mut s = seed;
    (0..len)
        .map(|_| {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            (z ^ (z >> 31)) as u8
        })
        .collect()
}

pub fn run(t: &Value, serial: u64, dir: &str) -> Value {
    let c = &t["cfg"];
    let size = c["pad"].as_u64().unwrap() as usize;
    let window = c["window"].as_u64().unwrap();
    let epoch = c["epoch"].as_u64().unwrap() as u32;
    let pad = noise(size, 1000 + serial);
    let pool = PadPool::shared_unchecked(pad.clone()).with_epoch(epoch);
    let other = PadPool::shared_unchecked(pad.clone()).with_epoch(epoch + 1);
    let role = |w: usize| if w == 1 { Role::Initiator } else { Role::Responder };
    // where each direction's bytes lie, taken from the pad itself below
    let files: Vec<std::path::PathBuf> = (1..=2).map(|w| std::path::Path::new(dir).join(format!("ledger-{serial}-{w}.pad"))).collect();
    let ledgers: Vec<Arc<Durable>> = files
        .iter()
        .map(|f| Arc::new(Durable { kept: Mutex::new(0), file: c["file"].as_bool().unwrap().then(|| FileLedger::new(f.clone())), die: Mutex::new(None) }))
        .collect();
    let open_sender = |w: usize| pool.send_suite(role(w)).with_ledger(ledgers[w - 1].clone());
    let mut send: Vec<PnpSuite> = (1..=2).map(open_sender).collect();
    let recv: Vec<Arc<PnpSuite>> = (1..=2).map(|w| Arc::new(pool.recv_suite(role(w)).with_recv_window(window))).collect();
    let left0: Vec<usize> = send.iter().map(|s| s.send_remaining()).collect();
    let mut recs: Vec<Rec> = vec![];
    let mut foreign: Vec<(usize, Vec<u8>)> = vec![];
    let other_send: Vec<PnpSuite> = (1..=2).map(|w| other.send_suite(role(w))).collect();
    let mut ev = vec![];
    for (si, s) in t["steps"].as_array().unwrap().iter().enumerate() {
        let who = s["who"].as_u64().unwrap() as usize;
        let peer = 3 - who;
        let len = s["len"].as_u64().unwrap() as usize;
        let k = s["k"].as_u64().unwrap() as usize;
        match s["o"].as_str().unwrap() {
            o @ ("seal" | "roll") => {
                let roll = o == "roll";
                // plaintext of zeros shows the pad bytes that cover it
                let zeros = si % 2 == 0 && !roll;
                let commitment = [si as u8; 32];
                let plain = if roll {
                    let mut p = (si as u32).to_le_bytes().to_vec();
                    p.extend_from_slice(&commitment);
                    p
                } else if zeros {
                    vec![0; len]
                } else {
                    noise(len, si as u64 + 77)
                };
                let r = if roll { send[who - 1].seal_roll(si as u32, &commitment) } else { send[who - 1].seal(&plain) };
                let need = MAC_KEY_LEN + plain.len();
                let left = send[who - 1].send_remaining();
                match r {
                    Some(frame) => {
                        let off = frame_offset(&frame).map(|x| x as i64).unwrap_or(-1);
                        let base = if who == 1 { 0 } else { (size / 2) as i64 };
                        let (mut lo, mut hi) = (base + off, base + off + need as i64);
                        if zeros && len >= 7 {
                            // find the covering bytes in the pad, wherever they really are
                            let at = frame.windows(len).enumerate().find_map(|(_, w)| pad.windows(len).position(|p| p == w));
                            match at {
                                Some(p) => {
                                    let p = p as i64;
                                    if p < lo || p + len as i64 > hi {
                                        lo = lo.min(p);
                                        hi = hi.max(p + len as i64);
                                    }
                                }
                                None => lo = -1,
                            }
                        }
                        ev.push(json!({"e": "seal", "who": who, "ok": true, "lo": lo, "hi": hi, "need": need, "left": left, "pad": size}));
                        recs.push(Rec { who, frame, plain, off, end: off + need as i64, roll });
                    }
                    None => ev.push(json!({"e": "seal", "who": who, "ok": false, "lo": 0, "hi": 0, "need": need, "left": left, "pad": size})),
                }
            }
            "crash" => {
                // dies inside a seal; the record never gets out
                let how = if s["how"] == "before" { "before" } else { "after" };
                *ledgers[who - 1].die.lock().unwrap() = Some(how);
                let plain = noise(len, si as u64);
                let r = catch_unwind(AssertUnwindSafe(|| send[who - 1].seal(&plain)));
                *ledgers[who - 1].die.lock().unwrap() = None;
                let _ = r;
                send[who - 1] = open_sender(who);
                ev.push(json!({"e": "restart", "who": who, "left": send[who - 1].send_remaining()}));
            }
            "restart" => {
                send[who - 1] = open_sender(who);
                ev.push(json!({"e": "restart", "who": who, "left": send[who - 1].send_remaining()}));
            }
            "give" | "race" => {
                let mine: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].who == peer).collect();
                if mine.is_empty() {
                    continue;
                }
                // mostly recent records, some old
                let i = if k % 3 == 0 { mine[k / 3 % mine.len()] } else { mine[mine.len() - 1 - (k / 3 % mine.len().min(4))] };
                let r = &recs[i];
                let open = |s: &PnpSuite| -> Option<bool> {
                    if r.roll {
                        s.open_roll(&r.frame).map(|(e, cm)| {
                            let mut p = e.to_le_bytes().to_vec();
                            p.extend_from_slice(&cm);
                            p == r.plain
                        })
                    } else {
                        s.open(&r.frame).map(|p| p == r.plain)
                    }
                };
                if s["o"] == "give" {
                    let got = open(&recv[who - 1]);
                    ev.push(json!({"e": "give", "who": who, "f": i, "off": r.off, "end": r.end, "ok": got.is_some(), "same": got == Some(true)}));
                } else {
                    let bar = std::sync::Barrier::new(4);
                    let n = std::sync::atomic::AtomicUsize::new(0);
                    std::thread::scope(|sc| {
                        for _ in 0..4 {
                            sc.spawn(|| {
                                bar.wait();
                                if open(&recv[who - 1]).is_some() {
                                    n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                }
                            });
                        }
                    });
                    ev.push(json!({"e": "race", "who": who, "f": i, "off": r.off, "end": r.end, "n": n.into_inner()}));
                }
            }
            "own" => {
                // a record reflected to the end that made it
                let mine: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].who == who).collect();
                if mine.is_empty() {
                    continue;
                }
                let r = &recs[mine[k % mine.len()]];
                let ok = if r.roll { recv[who - 1].open_roll(&r.frame).is_some() } else { recv[who - 1].open(&r.frame).is_some() };
                // a record opened as the other kind of record is just as foreign
                let cross = mine.len() > 1 && {
                    let p: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].who == peer).collect();
                    p.first().map_or(false, |i| if recs[*i].roll { recv[who - 1].open(&recs[*i].frame).is_some() } else { recv[who - 1].open_roll(&recs[*i].frame).is_some() })
                };
                ev.push(json!({"e": "foreign", "who": who, "what": if cross { "wrong kind" } else { "reflected" }, "ok": ok || cross}));
            }
            "other" => {
                // a record of the next epoch over the same bytes
                if let Some(f) = other_send[peer - 1].seal(&noise(len.min(20), si as u64)) {
                    foreign.push((who, f));
                }
                let pick: Vec<&(usize, Vec<u8>)> = foreign.iter().filter(|x| x.0 == who).collect();
                if pick.is_empty() {
                    continue;
                }
                let ok = recv[who - 1].open(&pick[k % pick.len()].1).is_some();
                ev.push(json!({"e": "foreign", "who": who, "what": "other epoch", "ok": ok}));
            }
            "bad" => {
                let mine: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].who == peer).collect();
                if mine.is_empty() {
                    continue;
                }
                let r = &recs[mine[k % mine.len()]];
                let mut f = r.frame.clone();
                let bit = s["bit"].as_u64().unwrap() as usize;
                match s["alter"].as_str().unwrap() {
                    "flip" => {
                        let p = bit % (f.len() * 8);
                        f[p / 8] ^= 1 << (p % 8);
                    }
                    "cut" => f.truncate(bit % f.len()),
                    "grow" => f.push(bit as u8),
                    _ => {
                        // the body of one record with the tag of another
                        let q = &recs[mine[(k / 7) % mine.len()]];
                        if q.frame == r.frame || q.frame.len() < 16 {
                            continue;
                        }
                        let n = f.len() - 16;
                        f.truncate(n);
                        f.extend_from_slice(&q.frame[q.frame.len() - 16..]);
                    }
                }
                if f == r.frame {
                    continue;
                }
                let ok = recv[who - 1].open(&f).is_some() || recv[who - 1].open_roll(&f).is_some();
                ev.push(json!({"e": "foreign", "who": who, "what": "altered", "ok": ok}));
            }
            x => panic!("step {x}"),
        }
    }
    for f in &files {
        let _ = std::fs::remove_file(f);
    }
    json!({"id": t["id"], "window": window, "left": left0, "ev": ev})
}

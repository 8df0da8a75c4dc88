//! Journaled state on a storage that crashes where it is told to.
use async_trait::async_trait;
use logicaffeine_data::crdt::Merge;
use logicaffeine_system::distributed::Distributed;
use logicaffeine_system::fs::{DirEntry, Vfs, VfsError, VfsResult};
use logicaffeine_system::storage::Persistent;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use tokio::sync::oneshot;

/// A grow-only set of numbered updates, each with some bytes of its own.
#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Updates {
    items: BTreeMap<u32, Vec<u8>>,
}

fn body(u: u32) -> Vec<u8> {
    let n = if u >= 100 { 0 } else if u % 7 == 0 { 5000 } else { (u as usize * 37) % 200 };
    (0..n).map(|i| (u as usize * 31 + i * 7) as u8).collect()
}

impl Merge for Updates {
    fn merge(&mut self, other: &Self) {
        for (k, v) in &other.items {
            self.items.insert(*k, v.clone());
        }
    }
}

impl Updates {
    fn read(&self) -> Value {
        // a body that is not the one written makes the update count as a foreign one
        json!(self.items.iter().map(|(k, v)| if *v == body(*k) { *k as i64 } else { -1 }).collect::<Vec<_>>())
    }
}

#[derive(Clone, Default)]
struct File {
    data: Vec<u8>,
    /// where each write or append landed
    parts: Vec<(usize, usize)>,
}

#[derive(Default)]
struct World {
    files: BTreeMap<String, File>,
    effects: u64,
    crash_at: u64,
    cut: i64,
    dead: bool,
    gated: bool,
    waiting: Vec<oneshot::Sender<()>>,
    activity: u64,
    log: Vec<Value>,
    applied: bool,
}

#[derive(Clone)]
struct SimVfs(Arc<Mutex<World>>);

fn missing(p: &str) -> VfsError {
    VfsError::NotFound(p.to_string())
}

impl SimVfs {
    async fn gate(&self) {
        let rx = {
            let mut w = self.0.lock().unwrap();
            w.activity += 1;
            if w.dead {
                None
            } else if w.gated {
                let (tx, rx) = oneshot::channel();
                w.waiting.push(tx);
                Some(rx)
            } else {
                return;
            }
        };
        match rx {
            Some(rx) => {
                if rx.await.is_err() {
                    std::future::pending::<()>().await
                }
                self.0.lock().unwrap().activity += 1;
            }
            None => std::future::pending::<()>().await,
        }
    }

    /// One change of the storage: `f(world, cut)` applies it, whole when cut is None.
    async fn effect<R>(&self, f: impl FnOnce(&mut World, Option<i64>) -> R) -> R {
        self.gate().await;
        let r = {
            let mut w = self.0.lock().unwrap();
            if w.dead {
                None
            } else {
                w.effects += 1;
                w.applied = true;
                w.activity += 1;
                if w.crash_at == w.effects {
                    let cut = w.cut;
                    let r = f(&mut w, Some(cut));
                    w.dead = true;
                    drop(r);
                    None
                } else {
                    Some(f(&mut w, None))
                }
            }
        };
        match r {
            Some(r) => {
                self.gate().await;
                r
            }
            None => std::future::pending().await,
        }
    }
}

#[async_trait]
impl Vfs for SimVfs {
    async fn read(&self, path: &str) -> VfsResult<Vec<u8>> {
        self.0.lock().unwrap().files.get(path).map(|f| f.data.clone()).ok_or_else(|| missing(path))
    }
    async fn read_to_string(&self, path: &str) -> VfsResult<String> {
        Ok(String::from_utf8_lossy(&self.read(path).await?).into_owned())
    }
    async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
        self.effect(|w, cut| {
            if cut.map_or(true, |c| c != 0) {
                w.files.insert(path.to_string(), File { data: contents.to_vec(), parts: vec![(0, contents.len())] });
            }
            Ok(())
        })
        .await
    }
    async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
        self.effect(|w, cut| {
            let n = contents.len() as i64;
            let k = match cut {
                None => n,
                Some(c) if c >= 0 => c.min(n),
                Some(c) => (n + c).max(0),
            } as usize;
            if k == 0 && cut.is_some() {
                return Ok(());
            }
            let f = w.files.entry(path.to_string()).or_default();
            let s = f.data.len();
            f.data.extend_from_slice(&contents[..k]);
            if k == contents.len() {
                f.parts.push((s, s + k));
            }
            Ok(())
        })
        .await
    }
    async fn exists(&self, path: &str) -> VfsResult<bool> {
        Ok(self.0.lock().unwrap().files.contains_key(path))
    }
    async fn remove(&self, path: &str) -> VfsResult<()> {
        self.effect(|w, cut| {
            if cut == Some(0) {
                return Ok(());
            }
            w.files.remove(path).map(|_| ()).ok_or_else(|| missing(path))
        })
        .await
    }
    async fn create_dir_all(&self, _path: &str) -> VfsResult<()> {
        Ok(())
    }
    async fn rename(&self, from: &str, to: &str) -> VfsResult<()> {
        self.effect(|w, cut| {
            if cut == Some(0) {
                return Ok(());
            }
            let f = w.files.remove(from).ok_or_else(|| missing(from))?;
            w.files.insert(to.to_string(), f);
            Ok(())
        })
        .await
    }
    async fn list_dir(&self, _path: &str) -> VfsResult<Vec<DirEntry>> {
        Ok(self.0.lock().unwrap().files.keys().map(|k| DirEntry { name: k.clone(), is_directory: false }).collect())
    }
}

enum Store {
    P(Persistent<Updates>),
    D(Distributed<Updates>),
}

const PATH: &str = "state.lsf";

impl Store {
    async fn mount(kind: &str, vfs: Arc<dyn Vfs + Send + Sync>, topic: Option<String>) -> VfsResult<Store> {
        Ok(if kind == "p" {
            Store::P(Persistent::mount(vfs, PATH).await?)
        } else {
            Store::D(Distributed::mount(vfs, PATH, topic).await?)
        })
    }
    async fn get(&self) -> Updates {
        match self {
            Store::P(p) => p.get().await,
            Store::D(d) => d.get().await,
        }
    }
    async fn mutate(&self, u: u32) -> VfsResult<()> {
        let f = move |s: &mut Updates| {
            s.items.insert(u, body(u));
        };
        match self {
            Store::P(p) => p.mutate(f).await,
            Store::D(d) => d.mutate(f).await,
        }
    }
    async fn compact(&self, threshold: Option<u64>) -> VfsResult<()> {
        match (self, threshold) {
            (Store::P(p), None) => p.compact().await,
            (Store::P(p), Some(t)) => p.maybe_compact(t).await.map(|_| ()),
            (Store::D(d), _) => d.compact().await,
        }
    }
}

fn log(w: &Arc<Mutex<World>>, v: Value) {
    let mut w = w.lock().unwrap();
    if !w.dead {
        w.activity += 1;
        w.log.push(v);
    }
}

static GETS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);

async fn task(w: Arc<Mutex<World>>, store: Arc<Store>, ops: Vec<Value>) {
    for o in ops {
        match o["o"].as_str().unwrap() {
            "mut" => {
                let u = o["u"].as_u64().unwrap() as u32;
                log(&w, json!({"e": "start", "u": [u]}));
                let r = store.mutate(u).await;
                log(&w, json!({"e": "ret", "u": [u], "ok": r.is_ok()}));
            }
            "bulk" => {
                let us: Vec<u32> = (0..o["n"].as_u64().unwrap() as u32).map(|i| 100 + i).collect();
                log(&w, json!({"e": "start", "u": us}));
                let mut ok = true;
                for u in &us {
                    ok &= store.mutate(*u).await.is_ok();
                }
                log(&w, json!({"e": "ret", "u": us, "ok": ok}));
            }
            "compact" => {
                let r = store.compact(None).await;
                log(&w, json!({"e": "compacted", "ok": r.is_ok()}));
            }
            "maybe" => {
                let r = store.compact(Some(o["t"].as_u64().unwrap())).await;
                log(&w, json!({"e": "compacted", "ok": r.is_ok()}));
            }
            "get" => {
                // the call observes some moment between its start and its return
                let k = GETS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                log(&w, json!({"e": "getting", "k": k}));
                let g = store.get().await.read();
                log(&w, json!({"e": "get", "k": k, "s": g}));
            }
            x => panic!("op {x}"),
        }
    }
}

/// What a process started now would find.
async fn peek(w: &Arc<Mutex<World>>, kind: &str) -> Value {
    let files = w.lock().unwrap().files.clone();
    let copy = Arc::new(Mutex::new(World { files, ..World::default() }));
    match Store::mount(kind, Arc::new(SimVfs(copy)), None).await {
        Ok(s) => json!({"e": "peek", "ok": true, "s": s.get().await.read()}),
        Err(_) => json!({"e": "peek", "ok": false, "s": []}),
    }
}

async fn died(w: &Arc<Mutex<World>>) {
    while !w.lock().unwrap().dead {
        tokio::task::yield_now().await;
    }
}

async fn settle(w: &Arc<Mutex<World>>) {
    let mut last = w.lock().unwrap().activity;
    let mut still = 0;
    while still < 6 {
        tokio::task::yield_now().await;
        let a = w.lock().unwrap().activity;
        if a == last {
            still += 1;
        } else {
            still = 0;
            last = a;
        }
    }
}

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

pub fn run(t: &Value, serial: u64) -> Value {
    let kind = t["kind"].as_str().unwrap().to_string();
    let world = Arc::new(Mutex::new(World::default()));
    for (si, s) in t["sessions"].as_array().unwrap().iter().enumerate() {
        let ops: Vec<Vec<Value>> = s["tasks"].as_array().unwrap().iter().map(|x| x.as_array().unwrap().clone()).collect();
        let remote: Vec<u32> = s["remote"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default();
        let sched: Vec<usize> = s["sched"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default();
        let gated = !sched.is_empty();
        {
            let mut w = world.lock().unwrap();
            w.dead = false;
            w.gated = false;
            w.effects = 0;
            w.crash_at = s["crash"]["at"].as_u64().unwrap_or(0);
            w.cut = s["crash"]["cut"].as_i64().unwrap_or(0);
            w.waiting.clear();
            // damage: one bit in the upper half of one recorded piece
            if let Some(d) = s["damage"].as_object() {
                let mut hit = false;
                if let Some(f) = w.files.get_mut(PATH) {
                    if !f.parts.is_empty() {
                        let (a, b) = f.parts[d["part"].as_u64().unwrap() as usize % f.parts.len()];
                        let half = (a + b) / 2;
                        if b > half && b <= f.data.len() {
                            let p = half + d["off"].as_u64().unwrap() as usize % (b - half);
                            f.data[p] ^= 1 << (d["bit"].as_u64().unwrap() % 8);
                            hit = true;
                        }
                    }
                }
                if hit {
                    w.log.push(json!({"e": "damage"}));
                }
            }
        }
        let rt = rt();
        let topic = if remote.is_empty() { None } else { Some(format!("t{}-{}", serial, si)) };
        let w = world.clone();
        let k = kind.clone();
        let go_on = rt.block_on(async move {
            let mounted = tokio::select! {
                r = Store::mount(&k, Arc::new(SimVfs(w.clone())), topic.clone()) => Some(r),
                _ = died(&w) => None,
            };
            let Some(mounted) = mounted else {
                // died while mounting
                w.lock().unwrap().log.push(json!({"e": "crash"}));
                return true;
            };
            let store = match mounted {
                Ok(s) => Arc::new(s),
                Err(_) => {
                    log(&w, json!({"e": "mount", "ok": false, "s": []}));
                    return false;
                }
            };
            let g = store.get().await.read();
            log(&w, json!({"e": "mount", "ok": true, "s": g}));
            settle(&w).await;
            {
                let mut x = w.lock().unwrap();
                x.gated = gated;
                x.applied = false;
            }
            let mut todo: Vec<Vec<Value>> = ops;
            let mut deltas = remote.clone();
            let mut step = 0;
            loop {
                settle(&w).await;
                let applied = std::mem::replace(&mut w.lock().unwrap().applied, false);
                if gated && applied && !w.lock().unwrap().dead {
                    let p = peek(&w, &k).await;
                    log(&w, p);
                }
                let (dead, waiting) = {
                    let x = w.lock().unwrap();
                    (x.dead, x.waiting.len())
                };
                if dead {
                    break;
                }
                let n = todo.len() + waiting + if deltas.is_empty() { 0 } else { 1 };
                if n == 0 {
                    break;
                }
                let c = if gated { sched[step % sched.len()] % n } else { 0 };
                step += 1;
                if c < waiting {
                    let tx = w.lock().unwrap().waiting.remove(c);
                    let _ = tx.send(());
                } else if c < waiting + todo.len() {
                    let ops = todo.remove(c - waiting);
                    tokio::spawn(task(w.clone(), store.clone(), ops));
                } else {
                    let u = deltas.remove(0);
                    let mut d = Updates::default();
                    d.items.insert(u, body(u));
                    log(&w, json!({"e": "start", "u": [u]}));
                    logicaffeine_system::network::gossip::on_message(topic.as_ref().unwrap(), bincode::serialize(&d).unwrap()).await;
                }
            }
            if w.lock().unwrap().dead {
                w.lock().unwrap().log.push(json!({"e": "crash"}));
            } else {
                if !remote.is_empty() {
                    log(&w, json!({"e": "ret", "u": remote, "ok": true}));
                }
                log(&w, json!({"e": "getting", "k": 0}));
                let g = store.get().await.read();
                log(&w, json!({"e": "get", "k": 0, "s": g}));
                log(&w, json!({"e": "crash"}));
                w.lock().unwrap().dead = true;
            }
            true
        });
        drop(rt);
        if !go_on {
            break;
        }
    }
    let log = std::mem::take(&mut world.lock().unwrap().log);
    json!({"id": t["id"], "ev": log})
}

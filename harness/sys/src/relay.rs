//! Connections using one relay over loopback.
use futures::{SinkExt, StreamExt};
use logicaffeine_system::relay::{serve, RelayClient, RelayFrame};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::TcpStream;
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::{MaybeTlsStream, WebSocketStream};

type Ws = WebSocketStream<MaybeTlsStream<TcpStream>>;

fn body(m: i64, len: usize) -> Vec<u8> {
    let mut v = (m as u32).to_le_bytes().to_vec();
    v.extend((0..len).map(|i| (m as usize * 13 + i * 7) as u8));
    v
}

struct Op {
    o: String,
    c: i64,
    t: String,
    m: i64,
    b: i64,
    r: i64,
}

#[derive(Default)]
struct Book {
    ops: Vec<Op>,
    /// per connection: operations not yet known to be handled
    open: Vec<Vec<usize>>,
    /// per connection: subscribe frames sent, as the operations they confirm
    subs: Vec<std::collections::VecDeque<(String, usize)>>,
    got: Vec<Vec<(String, Vec<u8>)>>,
    acked: Vec<std::collections::HashSet<String>>,
}

enum Conn {
    Lib(RelayClient),
    Raw { tx: futures::stream::SplitSink<Ws, Message>, reader: tokio::task::JoinHandle<()>, go: Arc<AtomicBool> },
    Gone,
}

const INF: i64 = 1_000_000;

/// An acknowledgement for topic t at connection c: everything sent up to it has been handled.
fn acked(b: &mut Book, c: usize, t: &str, now: i64) {
    b.acked[c].insert(t.to_string());
    if let Some(i) = b.subs[c].iter().position(|(x, _)| x == t) {
        let (_, upto) = b.subs[c].remove(i).unwrap();
        let open = std::mem::take(&mut b.open[c]);
        for k in open {
            if k < upto {
                b.ops[k].r = now;
            } else {
                b.open[c].push(k);
            }
        }
    }
}

/// Many relays at a time, each with its own connections.
pub fn run_all(inputs: Vec<Value>) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    for chunk in inputs.chunks(24) {
        let hs: Vec<_> = chunk.iter().cloned().map(|t| rt.spawn(async move { go(&t).await })).collect();
        for h in hs {
            println!("{}", rt.block_on(h).unwrap());
        }
    }
}

async fn go(t: &Value) -> Value {
    let server = serve("127.0.0.1:0").await.unwrap();
    let url = server.url();
    let k = t["conns"].as_u64().unwrap() as usize;
    let clock = Arc::new(AtomicI64::new(1));
    let tick = {
        let clock = clock.clone();
        move || clock.fetch_add(1, Ordering::SeqCst)
    };
    let book = Arc::new(Mutex::new(Book::default()));
    {
        let mut b = book.lock().unwrap();
        b.open = vec![vec![]; k + 1];
        b.subs = vec![Default::default(); k + 1];
        b.got = vec![vec![]; k + 1];
        b.acked = vec![Default::default(); k + 1];
    }
    let mut conns: Vec<Conn> = vec![Conn::Gone];
    for c in 1..=k {
        if c == 1 {
            conns.push(Conn::Lib(RelayClient::connect(&url).await.unwrap()));
        } else {
            let (ws, _) = tokio_tungstenite::connect_async(&url).await.unwrap();
            let (tx, mut rx) = ws.split();
            let go = Arc::new(AtomicBool::new(true));
            let (bk, g, tk) = (book.clone(), go.clone(), tick.clone());
            let reader = tokio::spawn(async move {
                loop {
                    while !g.load(Ordering::SeqCst) {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                    match rx.next().await {
                        Some(Ok(Message::Binary(x))) => {
                            let mut b = bk.lock().unwrap();
                            match RelayFrame::from_bytes(&x) {
                                Some(RelayFrame::Event { topic, data }) => b.got[c].push((topic, data)),
                                Some(RelayFrame::SubAck { topic }) => acked(&mut b, c, &topic, tk()),
                                _ => {}
                            }
                        }
                        Some(Ok(_)) => {}
                        _ => break,
                    }
                }
            });
            conns.push(Conn::Raw { tx, reader, go });
        }
    }
    let mut stuck = String::new();
    let mut fence = 0;
    let add = |o: &str, c: usize, t: &str, m: i64| -> usize {
        let now = tick();
        let mut b = book.lock().unwrap();
        let i = b.ops.len();
        b.ops.push(Op { o: o.into(), c: c as i64, t: t.into(), m, b: now, r: INF });
        b.open[c].push(i);
        i
    };
    let steps = t["steps"].as_array().unwrap();
    for s in steps {
        let c = s["c"].as_u64().unwrap() as usize;
        let topic = s["t"].as_str().unwrap();
        let m = s["m"].as_i64().unwrap();
        let data = body(m, s["len"].as_u64().unwrap() as usize);
        match s["o"].as_str().unwrap() {
            "inject" => {
                let i = add("pub", 0, topic, m);
                server.inject(topic, &data).await;
                let now = tick();
                book.lock().unwrap().ops[i].r = now;
            }
            "settle" => tokio::time::sleep(Duration::from_millis(2)).await,
            "sync" => {
                fence += 1;
                if !sync(&mut conns[c], c, &book, &tick, fence).await {
                    stuck = format!("connection {c}");
                    break;
                }
            }
            o => match &mut conns[c] {
                Conn::Gone => {}
                Conn::Lib(l) => match o {
                    "sub" => {
                        let i = add("sub", c, topic, m);
                        book.lock().unwrap().subs[c].push_back((topic.to_string(), i + 1));
                        match tokio::time::timeout(Duration::from_secs(60), l.subscribe(topic)).await {
                            Ok(Ok(())) => acked(&mut book.lock().unwrap(), c, topic, tick()),
                            _ => {
                                stuck = format!("subscribe of connection {c}");
                                break;
                            }
                        }
                    }
                    "pub" => {
                        add("pub", c, topic, m);
                        let _ = l.publish(topic, data);
                    }
                    "close" | "kill" => {
                        let ev = l.drain_events();
                        book.lock().unwrap().got[c].extend(ev);
                        add("close", c, topic, m);
                        conns[c] = Conn::Gone;
                    }
                    _ => {}
                },
                Conn::Raw { tx, reader, go } => {
                    let frame = match o {
                        "sub" => {
                            let i = add("sub", c, topic, m);
                            book.lock().unwrap().subs[c].push_back((topic.to_string(), i + 1));
                            Some(RelayFrame::Subscribe { topic: topic.into() })
                        }
                        "unsub" => {
                            add("unsub", c, topic, m);
                            Some(RelayFrame::Unsubscribe { topic: topic.into() })
                        }
                        "pub" => {
                            add("pub", c, topic, m);
                            Some(RelayFrame::Publish { topic: topic.into(), data })
                        }
                        _ => None,
                    };
                    if let Some(f) = frame {
                        let _ = tokio::time::timeout(Duration::from_secs(60), tx.send(Message::Binary(f.to_bytes()))).await;
                    } else {
                        match o {
                            "junk" => {
                                let junk = match m % 4 {
                                    0 => Message::Binary(vec![9, 9, 9, 9, 9, 1]),
                                    1 => Message::Text("hello".into()),
                                    2 => Message::Ping(vec![1]),
                                    _ => Message::Binary(RelayFrame::Event { topic: "x".into(), data: vec![1] }.to_bytes()),
                                };
                                let _ = tx.send(junk).await;
                            }
                            "stall" => go.store(false, Ordering::SeqCst),
                            "close" | "kill" => {
                                if o == "close" {
                                    let _ = tx.send(Message::Close(None)).await;
                                }
                                reader.abort();
                                add("close", c, topic, m);
                                conns[c] = Conn::Gone;
                            }
                            x => panic!("step {x}"),
                        }
                    }
                }
            },
        }
    }
    // everything sent is handled, then everything handled has arrived
    for _ in 0..2 {
        for c in 1..=k {
            fence += 1;
            if stuck.is_empty() && !sync(&mut conns[c], c, &book, &tick, fence).await {
                stuck = format!("connection {c} at the end");
            }
        }
    }
    let mut quiet = 0;
    let mut last = 0;
    while quiet < 2 {
        tokio::time::sleep(Duration::from_millis(4)).await;
        if let Conn::Lib(l) = &mut conns[1] {
            let ev = l.drain_events();
            book.lock().unwrap().got[1].extend(ev);
        }
        let n: usize = book.lock().unwrap().got.iter().map(|g| g.len()).sum();
        quiet = if n == last { quiet + 1 } else { 0 };
        last = n;
    }
    let b = book.lock().unwrap();
    let sizes: std::collections::HashMap<i64, usize> = steps.iter().map(|s| (s["m"].as_i64().unwrap(), s["len"].as_u64().unwrap() as usize)).collect();
    let h: Vec<Value> = b.ops.iter().enumerate().map(|(i, o)| json!({"o": o.o, "c": o.c, "t": o.t, "m": o.m, "b": o.b, "r": o.r, "n": i})).collect();
    let got: Vec<Value> = (1..=k)
        .map(|c| {
            json!(b.got[c]
                .iter()
                .map(|(t, d)| {
                    let m = if d.len() >= 4 { u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as i64 } else { -1 };
                    json!({"t": t, "m": m, "same": sizes.get(&m).map_or(false, |l| *d == body(m, *l))})
                })
                .collect::<Vec<_>>())
        })
        .collect();
    json!({"id": t["id"], "h": h, "got": got, "stuck": stuck})
}

async fn sync(conn: &mut Conn, c: usize, book: &Arc<Mutex<Book>>, tick: &(impl Fn() -> i64 + Sync), fence: usize) -> bool {
    let topic = format!("#{fence}");
    {
        let mut b = book.lock().unwrap();
        let n = b.ops.len();
        b.subs[c].push_back((topic.clone(), n));
    }
    match conn {
        Conn::Gone => true,
        Conn::Lib(l) => {
            let ok = matches!(tokio::time::timeout(Duration::from_secs(60), l.subscribe(&topic)).await, Ok(Ok(())));
            if ok {
                acked(&mut book.lock().unwrap(), c, &topic, tick());
            }
            ok
        }
        Conn::Raw { tx, go, .. } => {
            go.store(true, Ordering::SeqCst);
            let f = RelayFrame::Subscribe { topic: topic.clone() };
            if !matches!(tokio::time::timeout(Duration::from_secs(60), tx.send(Message::Binary(f.to_bytes()))).await, Ok(Ok(()))) {
                return false;
            }
            for _ in 0..60000 {
                if book.lock().unwrap().acked[c].contains(&topic) {
                    return true;
                }
                tokio::time::sleep(Duration::from_micros(250)).await;
            }
            false
        }
    }
}

//! Framing on a byte stream and k-of-n shards.
use logicaffeine_compile::concurrency::fec::{frame_redundant, reconstruct_redundant};
use logicaffeine_compile::concurrency::stream::{frame_for_stream, StreamDeframer};
use serde_json::{json, Value};

fn body(len: usize, seed: usize) -> Vec<u8> {
    (0..len).map(|i| (i * 31 + seed * 101 + (i >> 8)) as u8).collect()
}

pub fn run(t: &Value) -> Value {
    match t["m"].as_str().unwrap() {
        "stream" => stream(t),
        "shard" => shard(t),
        x => panic!("case {x}"),
    }
}

fn stream(t: &Value) -> Value {
    let lens: Vec<usize> = t["lens"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let chunks: Vec<usize> = t["chunks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let lazy = t["lazy"].as_u64().unwrap() as usize;
    let bodies: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, l)| body(*l, i + 1)).collect();
    let mut bytes = vec![];
    let mut ends = vec![];
    for b in &bodies {
        frame_for_stream(b, &mut bytes);
        ends.push(bytes.len());
    }
    let mut d = StreamDeframer::new();
    let mut obs = vec![];
    let (mut p, mut step, mut out, mut same) = (0, 0, 0, true);
    loop {
        let k = chunks[step % chunks.len()].min(bytes.len() - p);
        step += 1;
        d.push(&bytes[p..p + k]);
        p += k;
        // some readers let several chunks pile up before they look
        if step % lazy == 0 || p == bytes.len() {
            let n = d.drain_frames(|f| {
                same &= bodies.get(out).map_or(false, |b| b == f);
                out += 1;
            });
            let _ = n;
            obs.push(json!({"p": p, "out": out, "same": same, "pending": d.pending(), "empty": d.is_empty()}));
            if p == bytes.len() {
                break;
            }
        }
    }
    json!({"id": t["id"], "m": "stream", "lens": lens, "ends": ends, "total": bytes.len(), "obs": obs})
}

fn shard(t: &Value) -> Value {
    let (k, n) = (t["k"].as_u64().unwrap() as usize, t["n"].as_u64().unwrap() as usize);
    let len = t["len"].as_u64().unwrap() as usize;
    let data = body(len, k * 7 + n);
    let shards = frame_redundant(5, &data, k, n).unwrap_or_default();
    let take: Vec<usize> = t["take"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let mut recv: Vec<Vec<u8>> = vec![];
    // shards of another message, too few to recover it, arrive in between
    let noise = if t["mixed"] == 1 && k > 1 { frame_redundant(6, &body(len + 1, 9), k, n).unwrap_or_default() } else { vec![] };
    for (i, j) in take.iter().enumerate() {
        if i < k.saturating_sub(1) && i < noise.len() {
            recv.push(noise[i].clone());
        }
        if let Some(s) = shards.get(*j) {
            recv.push(s.clone());
        }
    }
    let got = match reconstruct_redundant(&recv) {
        None => "no",
        Some((5, d)) if d == data => "same",
        Some(_) => "different",
    };
    json!({"id": t["id"], "m": "shard", "k": k, "n": n, "take": take, "count": shards.len(), "got": got})
}

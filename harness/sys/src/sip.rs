//! A file cut into chunks with a manifest of digests.
use logicaffeine_system::memory::Zone;
use logicaffeine_system::network::FileSipper;
use serde_json::{json, Value};

pub fn run(t: &Value, dir: &str) -> Value {
    let len = t["len"].as_u64().unwrap() as usize;
    let chunk = t["chunk"].as_u64().unwrap() as usize;
    let hit = t["hit"].as_u64().unwrap() as usize;
    let path = std::path::Path::new(dir).join("file.bin");
    // chunks repeat, so equal chunks have equal digests
    let data: Vec<u8> = (0..len).map(|i| ((i / 50) * 3 + i % 50) as u8).collect();
    std::fs::write(&path, &data).unwrap();
    let zone = Zone::new_mapped(&path).unwrap();
    let s = FileSipper::with_chunk_size(&zone, chunk);
    let m = s.manifest();
    let n = s.chunk_count();
    let mut whole = vec![];
    let mut sizes = vec![];
    let mut own = m.chunk_size == chunk && m.chunk_count == n && m.file_id == s.file_id();
    for i in 0..n {
        let c = s.get_chunk_with_hash(i);
        own &= c.index == i && c.file_id == s.file_id() && c.data == s.get_chunk(i) && m.chunk_hashes.get(i) == Some(&c.hash) && s.hash_chunk(i) == c.hash;
        sizes.push(c.data.len());
        whole.extend_from_slice(&c.data);
    }
    own &= s.get_chunk(n).is_empty();
    // the same file with one bit changed, checked against the first manifest
    let mut bad = vec![];
    if hit >= 1 && hit <= n {
        let at = (hit - 1) * chunk + t["off"].as_u64().unwrap() as usize % sizes[hit - 1].max(1);
        let mut d = data.clone();
        d[at] ^= 1 << t["bit"].as_u64().unwrap();
        let p2 = std::path::Path::new(dir).join("file2.bin");
        std::fs::write(&p2, &d).unwrap();
        let z2 = Zone::new_mapped(&p2).unwrap();
        let s2 = FileSipper::with_chunk_size(&z2, chunk);
        for i in 0..n {
            if m.chunk_hashes.get(i) != Some(&s2.hash_chunk(i)) {
                bad.push(i + 1);
            }
        }
    }
    json!({"id": t["id"], "m": "file", "len": len, "chunk": chunk, "hit": hit, "total": m.total_size, "count": m.chunk_count,
           "hashes": m.chunk_hashes.len(), "same": whole == data, "own": own, "sizes": sizes, "bad": bad})
}

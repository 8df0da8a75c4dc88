//! The file store, run by an unprivileged user inside a scratch directory.
use logicaffeine_system::fs::{NativeVfs, Vfs};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

/// Make the scratch directory and give up every privilege before any store is touched.
pub fn enter(scratch: &str) -> PathBuf {
    let dir = PathBuf::from(scratch);
    std::fs::create_dir_all(&dir).unwrap();
    unsafe {
        if libc::geteuid() == 0 {
            let c = std::ffi::CString::new(scratch).unwrap();
            let ok = libc::chown(c.as_ptr(), 65534, 65534) == 0
                && libc::setgroups(0, std::ptr::null()) == 0
                && libc::setgid(65534) == 0
                && libc::setuid(65534) == 0
                && libc::setuid(0) != 0;
            if !ok {
                eprintln!("cannot give up privileges");
                std::process::exit(3);
            }
        }
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    dir
}

fn limit(n: i64) {
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
        r.rlim_cur = if n < 0 { r.rlim_max } else { n as libc::rlim_t };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    }
}

fn walk(base: &Path, at: &Path, files: &mut Vec<(Vec<String>, String)>, dirs: &mut Vec<Vec<String>>) {
    let rel = |p: &Path| -> Vec<String> { p.strip_prefix(base).unwrap().components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect() };
    if let Ok(rd) = std::fs::read_dir(at) {
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                dirs.push(rel(&p));
                walk(base, &p, files, dirs);
            } else {
                files.push((rel(&p), std::fs::read(&p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()));
            }
        }
    }
    files.sort();
    dirs.sort();
}

fn pieces(v: &Value, out: &str) -> String {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().replace("@OUT", out)).collect::<Vec<_>>().join("/")
}

pub fn run(t: &Value, scratch: &Path, serial: u64) -> Value {
    let top = scratch.join(format!("t{serial}"));
    let root = top.join("root");
    let outside = top.join("out");
    std::fs::create_dir_all(&root).unwrap();
    std::fs::create_dir_all(&outside).unwrap();
    std::fs::write(outside.join("secret"), "SECRET").unwrap();
    let out_str = outside.to_string_lossy().trim_start_matches('/').to_string();
    let out_parts: Vec<String> = out_str.split('/').map(|s| s.to_string()).collect();
    let around = |top: &Path| {
        let (mut f, mut d) = (vec![], vec![]);
        walk(top, top, &mut f, &mut d);
        f.retain(|x| x.0[0] != "root");
        d.retain(|x| x[0] != "root" || x.len() == 1);
        (f, d)
    };
    let before = around(&top);
    let shorten = |p: Vec<String>| -> Option<Vec<String>> {
        if p.len() >= out_parts.len() && p[..out_parts.len()] == out_parts[..] {
            let mut q = vec!["@OUT".to_string()];
            q.extend_from_slice(&p[out_parts.len()..]);
            Some(q)
        } else if out_parts[..p.len().min(out_parts.len())] == p[..] {
            None
        } else {
            Some(p)
        }
    };
    let vfs = NativeVfs::new(root.clone());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut ev = vec![];
    for s in t["steps"].as_array().unwrap() {
        let o = s["o"].as_str().unwrap();
        let (p, p2) = (pieces(&s["p"], &out_str), pieces(&s["p2"], &out_str));
        let c = s["c"].as_str().unwrap();
        let lim = s["lim"].as_i64().unwrap();
        if lim >= 0 {
            limit(lim);
        }
        let unit = |r: Result<(), _>| -> (bool, Value) { (Result::<(), logicaffeine_system::fs::VfsError>::is_ok(&r), json!("")) };
        let (ok, v) = rt.block_on(async {
            match o {
                "read" => match vfs.read(&p).await {
                    Ok(b) => {
                        // both reading calls must agree
                        let s2 = vfs.read_to_string(&p).await;
                        let s1 = String::from_utf8_lossy(&b).into_owned();
                        if s2.as_ref().ok() == Some(&s1) { (true, json!(s1)) } else { (true, json!("<reads differ>")) }
                    }
                    Err(_) => (false, json!("")),
                },
                "write" => unit(vfs.write(&p, c.as_bytes()).await),
                "append" => unit(vfs.append(&p, c.as_bytes()).await),
                "exists" => match vfs.exists(&p).await {
                    Ok(b) => (true, json!(if b { "yes" } else { "no" })),
                    Err(_) => (false, json!("")),
                },
                "remove" => unit(vfs.remove(&p).await),
                "mkdir" => unit(vfs.create_dir_all(&p).await),
                "rename" => unit(vfs.rename(&p, &p2).await),
                "list" => match vfs.list_dir(&p).await {
                    Ok(l) => (true, json!(l.iter().filter(|e| !(e.is_directory && out_parts[0] == e.name)).map(|e| json!({"name": e.name, "dir": e.is_directory})).collect::<Vec<_>>())),
                    Err(_) => (false, json!([])),
                },
                x => panic!("op {x}"),
            }
        });
        if lim >= 0 {
            limit(-1);
        }
        let (mut files, mut dirs) = (vec![], vec![]);
        walk(&root, &root, &mut files, &mut dirs);
        ev.push(json!({"o": o, "p": s["p"], "p2": s["p2"], "c": c, "lim": lim, "ok": ok, "v": v,
            "files": files.into_iter().filter_map(|(p, c)| shorten(p).map(|p| json!({"p": p, "c": c}))).collect::<Vec<_>>(),
            "dirs": dirs.into_iter().filter_map(&shorten).collect::<Vec<_>>(),
            "leak": around(&top) != before}));
    }
    drop(rt);
    let _ = std::fs::remove_dir_all(&top);
    json!({"id": t["id"], "ev": ev})
}

fn body(c: i64) -> Vec<u8> {
    format!("{c}|").into_bytes().into_iter().cycle().take(3000 + (c as usize * 977) % 40000).collect()
}

/// Readers and writers running truly in parallel.
pub fn parallel(t: &Value, scratch: &Path, serial: u64) -> Value {
    let root = scratch.join(format!("c{serial}"));
    std::fs::create_dir_all(&root).unwrap();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let vfs = Arc::new(NativeVfs::new(root.clone()));
    let clock = Arc::new(AtomicI64::new(10));
    let mut ev = vec![];
    let known: Vec<i64> = t["tasks"].as_array().unwrap().iter().flat_map(|x| x.as_array().unwrap().iter().map(|o| o["c"].as_i64().unwrap()))
        .chain(1..=t["names"].as_array().unwrap().len() as i64).collect();
    let table: Arc<std::collections::HashMap<Vec<u8>, i64>> = Arc::new(known.iter().map(|c| (body(*c), *c)).collect());
    rt.block_on(async {
        for (i, f) in t["names"].as_array().unwrap().iter().enumerate() {
            let c = i as i64 + 1;
            let ok = vfs.write(f.as_str().unwrap(), &body(c)).await.is_ok();
            ev.push(json!({"o": "write", "f": f, "c": c, "b": 2 * i, "r": 2 * i + 1, "ok": ok}));
        }
        let mut hs = vec![];
        for ops in t["tasks"].as_array().unwrap().clone() {
            let (vfs, clock, table) = (vfs.clone(), clock.clone(), table.clone());
            hs.push(tokio::spawn(async move {
                let mut log = vec![];
                for o in ops.as_array().unwrap() {
                    let f = o["f"].as_str().unwrap();
                    let b = clock.fetch_add(1, Ordering::SeqCst);
                    let (ok, c) = if o["o"] == "write" {
                        let c = o["c"].as_i64().unwrap();
                        (vfs.write(f, &body(c)).await.is_ok(), c)
                    } else {
                        match vfs.read(f).await {
                            Ok(v) => (true, table.get(&v).copied().unwrap_or(-1)),
                            Err(_) => (false, -1),
                        }
                    };
                    let r = clock.fetch_add(1, Ordering::SeqCst);
                    log.push(json!({"o": o["o"], "f": f, "c": c, "b": b, "r": r, "ok": ok}));
                }
                log
            }));
        }
        for h in hs {
            ev.extend(h.await.unwrap());
        }
        for f in t["names"].as_array().unwrap() {
            let b = clock.fetch_add(1, Ordering::SeqCst);
            let v = vfs.read(f.as_str().unwrap()).await;
            let r = clock.fetch_add(1, Ordering::SeqCst);
            let c = v.as_ref().ok().and_then(|v| table.get(v).copied()).unwrap_or(-1);
            ev.push(json!({"o": "read", "f": f, "c": c, "b": b, "r": r, "ok": v.is_ok()}));
        }
    });
    let _ = std::fs::remove_dir_all(&root);
    json!({"id": t["id"], "ev": ev})
}

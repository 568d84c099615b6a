//! Creations interrupted at a given point, in a child process (see harness/shim/fault.c).
use crate::{dump, mk};
use jubako as jbk;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn put(j: &J, from: &str, to: &str) -> J {
    match j {
        J::String(s) => J::String(s.replace(from, to)),
        J::Array(a) => J::Array(a.iter().map(|x| put(x, from, to)).collect()),
        J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), put(v, from, to))).collect()),
        x => x.clone(),
    }
}

#[derive(Clone)]
struct Env {
    base: PathBuf,
    out: PathBuf,
    tmp: PathBuf,
    spec: PathBuf,
    files: Vec<String>,
    prev: Vec<Option<Vec<u8>>>,
    obstacle: Option<usize>,
    shim: String,
    rel: bool,
    few: bool,
    timeout: Duration,
    q: J,
    reference: J,
}

/// A file which may be complete: starts with a header whose mirror ends it, and declares its size.
fn whole(b: &[u8]) -> bool {
    if b.len() < 128 || &b[0..3] != b"jbk" {
        return false;
    }
    let mut tail = b[b.len() - 64..].to_vec();
    tail.reverse();
    tail[..] == b[..64] && u64::from_le_bytes(b[32..40].try_into().unwrap()) == b.len() as u64
}

fn verified(p: &Path) -> bool {
    let r = std::panic::catch_unwind(|| jbk::tools::open_pack(p)?.check());
    matches!(r, Ok(Ok(true)))
}

fn scrub(d: &J) -> J {
    json!({"idx": d["idx"], "contents": d["contents"], "packs": d["packs"], "check": d["check"], "npacks": d["npacks"]})
}

impl Env {
    fn clean(&self) {
        for d in [&self.out, &self.tmp] {
            if let Ok(it) = std::fs::read_dir(d) {
                for e in it.flatten() {
                    if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                        let _ = std::fs::remove_dir(e.path());
                    } else {
                        let _ = std::fs::remove_file(e.path());
                    }
                }
            }
        }
        for (i, f) in self.files.iter().enumerate() {
            if let Some(b) = &self.prev[i] {
                std::fs::write(self.out.join(f), b).unwrap();
            }
        }
        if let Some(i) = self.obstacle {
            let p = self.out.join(&self.files[i]);
            let _ = std::fs::remove_file(&p);
            std::fs::create_dir(&p).unwrap();
        }
    }
    /// Runs the creation with a fault, returns how the process ended and the counters.
    fn run(&self, fault: &str) -> (String, [i64; 4]) {
        let count = self.base.join("count");
        let _ = std::fs::remove_file(&count);
        let log = self.base.join("log");
        let so = std::fs::File::create(&log).unwrap();
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("one")
            .arg(&self.spec)
            .env("LD_PRELOAD", &self.shim)
            .env("JV_NCPU", if self.few { "2" } else { "8" })
            .env("JV_DIR", &self.out)
            .env("JV_IN", self.base.join("in"))
            .env("JV_SCRATCH", self.base.join("in"))
            .env("TMPDIR", &self.tmp)
            .env("JV_FAULT", fault)
            .env("JV_COUNT", &count)
            .stdin(Stdio::null())
            .stdout(so)
            .stderr(Stdio::null());
        if self.rel {
            c.current_dir(&self.out);
        }
        let mut ch = c.spawn().unwrap();
        let t = Instant::now();
        let mut hung = false;
        let st = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break s;
            }
            if t.elapsed() > self.timeout {
                hung = true;
                let _ = ch.kill();
                break ch.wait().unwrap();
            }
            std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 20 { 200 } else { 2000 }));
        };
        let how = if hung {
            "hung".to_string()
        } else if let Some(s) = st.signal() {
            if s == 9 { "killed".into() } else { format!("signal {s}") }
        } else {
            let o: J = std::fs::read_to_string(&log).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(J::Null);
            if o["outcome"] == "panic" || o["panics"].as_u64().unwrap_or(0) > 0 && o["res"]["ok"] != true {
                "panic".into()
            } else if o["res"]["ok"] == true {
                "ok".into()
            } else if o["res"]["ok"] == false {
                "err".into()
            } else {
                format!("exit {:?}", st.code())
            }
        };
        let mut n = [0i64; 4];
        if let Ok(b) = std::fs::read(&count) {
            for i in 0..4 {
                if b.len() >= 8 * (i + 1) {
                    n[i] = i64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
                }
            }
        }
        if let Ok(it) = std::fs::read_dir(self.base.join("in")) {
            for e in it.flatten() {
                let _ = std::fs::remove_file(e.path());
            }
        }
        (how, n)
    }
    /// What is found at each of the final paths.
    fn look(&self) -> J {
        let mut st = vec![];
        for (i, f) in self.files.iter().enumerate() {
            let p = self.out.join(f);
            let s = match std::fs::symlink_metadata(&p) {
                Err(_) => json!({"is": "absent"}),
                Ok(m) if m.is_dir() => json!({"is": if self.obstacle == Some(i) { "obstacle" } else { "dir" }}),
                Ok(_) => {
                    let b = std::fs::read(&p).unwrap();
                    if Some(&b) == self.prev[i].as_ref() {
                        json!({"is": "prev"})
                    } else {
                        let w = whole(&b);
                        let v = w && verified(&p);
                        json!({"is": "new", "whole": w, "verified": v})
                    }
                }
            };
            st.push(s);
        }
        // files[0] is the entry point
        let (mut opens, mut check, mut found, mut same) = (false, false, false, false);
        if st[0]["is"] == "new" {
            let p = self.out.join(&self.files[0]);
            if let Ok(d) = std::panic::catch_unwind(|| dump::dump(p.to_str().unwrap(), &self.q)) {
                opens = d.is_object();
                check = d["check"] == "ok";
                found = d["packs"].as_array().map(|a| a.iter().all(|x| x[0] == "ok" || x[0] == "nopack")).unwrap_or(false);
                same = self.reference.is_null() || scrub(&d) == scrub(&self.reference);
            }
        }
        json!({"had": self.prev.iter().map(|x| x.is_some()).collect::<Vec<_>>(), "stuck": self.obstacle.map(|i| i + 1).unwrap_or(0), "files": st, "opens": opens, "check": check, "found": found, "same": same})
    }
}

/// Runs a creation once per fault. Without faults: the counters of an undisturbed creation.
pub fn atomic(c: &J) -> J {
    let base = mk::scratch("atomic");
    let out = base.join("out");
    let inp = base.join("in");
    let shm = Path::new("/dev/shm");
    let tmp = if shm.is_dir() { shm.join(format!("jv-{}-{}", std::process::id(), base.file_name().unwrap().to_str().unwrap())) } else { base.join("tmp") };
    std::fs::create_dir_all(&out).unwrap();
    std::fs::create_dir_all(&inp).unwrap();
    let tmp = if std::fs::create_dir_all(&tmp).is_ok() { tmp } else { base.join("tmp") };
    std::fs::create_dir_all(&tmp).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inner(c, &base, &out, &tmp)));
    let _ = std::fs::remove_dir_all(&base);
    let _ = std::fs::remove_dir_all(&tmp);
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn inner(c: &J, base: &Path, out: &Path, tmp: &Path) -> J {
    let rel = c["rel"].as_bool().unwrap_or(false);
    let outs = if rel { String::new() } else { format!("{}/", out.display()) };
    let files: Vec<String> = c["files"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let spec = base.join("spec.json");
    let mut e = Env {
        base: base.into(),
        out: out.into(),
        tmp: tmp.into(),
        spec: spec.clone(),
        prev: files.iter().map(|_| None).collect(),
        files,
        obstacle: None,
        shim: c["shim"].as_str().unwrap().into(),
        rel,
        few: c["few"].as_bool().unwrap_or(false),
        timeout: Duration::from_millis(c["timeout"].as_u64().unwrap_or(10000)),
        q: json!({}),
        reference: J::Null,
    };
    let write = |s: &J, p: &Path| std::fs::write(p, json!({"op": "build", "id": "x", "spec": put(&put(s, "{D}/", &outs), "{A}/", &format!("{}/", out.display()))}).to_string()).unwrap();
    let adds = |e: &Env| -> J {
        let o: J = serde_json::from_str(&std::fs::read_to_string(e.base.join("log")).unwrap_or_default()).unwrap_or(J::Null);
        J::Array(o["res"]["adds"].as_array().map(|a| a.iter().map(|x| x["addr"].clone()).collect()).unwrap_or_default())
    };
    // the files which are there before
    if c["prev"].is_object() {
        write(&c["prev"], &spec);
        e.clean();
        let (how, _) = e.run("none:0:0");
        if how != "ok" {
            return json!({"failed": format!("previous creation: {how}")});
        }
        for i in 0..e.files.len() {
            e.prev[i] = std::fs::read(out.join(&e.files[i])).ok();
        }
    }
    write(&c["spec"], &spec);
    // the undisturbed creation
    e.clean();
    let (how, total) = e.run("none:0:0");
    e.q = json!({"idx": c["spec"]["dir"]["idx"].as_array().map(|a| a.iter().map(|i| i["name"].clone()).collect::<Vec<_>>()).unwrap_or_default(), "addrs": adds(&e)});
    if how == "ok" {
        e.reference = dump::dump(out.join(&e.files[0]).to_str().unwrap(), &e.q);
    }
    let plain = e.look();
    if let Some(o) = c["obstacle"].as_u64() {
        e.obstacle = Some(o as usize);
        e.prev[o as usize] = None;
    }
    let mut groups: BTreeMap<String, Vec<J>> = BTreeMap::new();
    let (mut missed, mut hung) = (0, 0);
    let first = base.join("first.json");
    let before = e.prev.clone();
    if c["first"].is_object() {
        write(&c["first"], &first);
    }
    'all: for f in c["faults"].as_array().unwrap() {
        let (kind, errno) = (f["kind"].as_str().unwrap(), f["errno"].as_i64().unwrap_or(0));
        let then = f["then"].as_i64().unwrap_or(-1);
        let points: Vec<i64> = match f["at"].as_array() {
            Some(a) => a.iter().map(|x| x.as_i64().unwrap()).collect(),
            None => (f["from"].as_i64().unwrap()..f["to"].as_i64().unwrap()).step_by(f["step"].as_u64().unwrap_or(1) as usize).collect(),
        };
        for n in points {
            e.clean();
            let mut how = String::new();
            if c["first"].is_object() {
                // another creation dies first, this one comes over what it left
                let (h, _) = Env { spec: first.clone(), ..e.clone() }.run(f["first"].as_str().unwrap());
                for i in 0..e.files.len() {
                    e.prev[i] = std::fs::read(out.join(&e.files[i])).ok();
                }
                how = h + "/";
            }
            let (h, _) = e.run(&format!("{kind}:{n}:{errno}:{then}"));
            how += &h;
            if kind.starts_with("kill") && h != "killed" {
                missed += 1;
            }
            let mut l = e.look();
            e.prev = before.clone();
            l["how"] = json!(how);
            groups.entry(l.to_string()).or_default().push(json!([kind, n, errno, then, f["first"].as_str().unwrap_or("")]));
            hung += (h == "hung") as usize;
            if hung > 3 {
                break 'all;
            }
        }
    }
    let groups: Vec<J> = groups.into_iter().map(|(k, v)| json!({"state": serde_json::from_str::<J>(&k).unwrap(), "faults": v})).collect();
    json!({"how": how, "total": total, "plain": plain, "groups": groups, "missed": missed, "hung": hung, "prev": e.prev.iter().map(|x| x.is_some()).collect::<Vec<_>>(),
           "sizes": e.files.iter().map(|f| std::fs::metadata(out.join(f)).map(|m| m.len()).unwrap_or(0)).collect::<Vec<_>>()})
}

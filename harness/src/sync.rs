//! Concurrent readers: replays schedules of SyncVec.tla on the real code, and free runs.
//! The points are those of /repo/src/verif.rs (cfg jubako_verif).
use crate::gen::{gen, Rng};
use jbk::reader::{ByteRegion, Container, MayMissPack};
use jubako as jbk;
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::Read;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

const CHUNK: usize = 4096;
const R: usize = 4;

#[derive(Default)]
struct St {
    ev: Vec<(&'static str, usize, usize, usize)>, // point, reader (0: none), a, b
    object: usize,
    total: usize,
    buf: usize,
    expect: Arc<Vec<u8>>,
    good: usize,
    after: bool,
    free: bool,
    allowed: usize, // in bytes
    drop_ok: bool,
    writer_parked: bool,
    notified: usize,
    gone: bool,
    t: [bool; R],
    s: [bool; R],
    place: [u8; R], // 0: away, 1: before waiting, 2: before slicing, 3: read is over
    tests: [usize; R],
}

#[derive(Default)]
struct Ctl {
    mode: AtomicUsize, // 0: nothing, 1: schedule, 2: perturbation, 3: gates of the cluster cache
    m: Mutex<St>,
    c: Condvar,
    bad: Mutex<Vec<J>>,
    // free runs: instances of decoding buffers which are recorded
    inst: Mutex<Inst>,
    cache: Mutex<CacheSt>,
    cc: Condvar,
}

#[derive(Default)]
struct Inst {
    of: HashMap<usize, usize>,
    next: usize,
    every: usize,
    ev: HashMap<usize, Vec<(&'static str, usize, usize, usize)>>,
}

/// Gates on the cluster cache: at which point a reader is parked.
#[derive(Default)]
struct CacheSt {
    free: bool,
    at: [&'static str; R],
    go: [usize; R],
    seen: [usize; R],
}

static CTL: OnceLock<Arc<Ctl>> = OnceLock::new();

thread_local! {
    static RID: Cell<usize> = const { Cell::new(0) };
    static RND: RefCell<Option<Rng>> = const { RefCell::new(None) };
}

fn ctl() -> &'static Arc<Ctl> {
    CTL.get_or_init(|| {
        let c: Arc<Ctl> = Default::default();
        let c2 = Arc::clone(&c);
        jbk::verif::set_hook(Box::new(move |p, o, a, b| match c2.mode.load(Ordering::Relaxed) {
            1 => gate(&c2, p, o, a, b),
            2 => perturb(&c2, p, o, a, b),
            3 => cache_gate(&c2, p),
            _ => {}
        }));
        c
    })
}

fn gate(c: &Ctl, p: &'static str, o: usize, a: usize, b: usize) {
    if !p.starts_with("sync.") {
        return;
    }
    let r = RID.with(|x| x.get());
    let mut st = c.m.lock().unwrap();
    if p == "sync.new" {
        st.object = o;
        st.total = a;
        st.buf = b;
        st.ev.push((p, 0, a, 0));
        return;
    }
    if o != st.object {
        return;
    }
    let limit = Duration::from_secs(8);
    macro_rules! park {
        ($cond:expr) => {{
            let (s2, _) = c.c.wait_timeout_while(st, limit, |s| !s.free && !($cond)(&*s)).unwrap();
            st = s2;
        }};
    }
    match p {
        "sync.publish" => {
            // what is published is already there
            let n = a.min(st.total);
            let mem = unsafe { std::slice::from_raw_parts(st.buf as *const u8, n) };
            let m = n.min(st.good).min(st.expect.len());
            let ok = a <= st.total && mem[..m] == st.expect[..m];
            if !st.after || a <= CHUNK {
                st.writer_parked = true;
                c.c.notify_all();
                park!(|s: &St| a <= s.allowed || s.drop_ok);
                st.writer_parked = false;
            }
            st.ev.push((p, 0, a, ok as usize));
        }
        "sync.notified" => {
            st.ev.push((p, 0, a, 0));
            st.notified = st.notified.max(a);
            st.writer_parked = st.after;
            c.c.notify_all();
            if st.after {
                park!(|s: &St| a < s.allowed || s.drop_ok);
                st.writer_parked = false;
            }
        }
        "sync.drop" => {
            st.writer_parked = true;
            c.c.notify_all();
            park!(|s: &St| s.drop_ok);
            st.ev.push((p, 0, 0, 0));
        }
        "sync.gone" => {
            st.ev.push((p, 0, 0, 0));
            st.gone = true;
            c.c.notify_all();
        }
        "sync.wait" => {
            st.place[r] = 1;
            c.c.notify_all();
            park!(|s: &St| s.t[r]);
            st.place[r] = 0;
            st.ev.push((p, r, a, 0));
        }
        "sync.test" => {
            st.ev.push((p, r, a, b));
            st.tests[r] += 1;
            c.c.notify_all();
        }
        "sync.slice" => {
            st.place[r] = 2;
            c.c.notify_all();
            park!(|s: &St| s.s[r]);
            st.place[r] = 0;
            st.ev.push((p, r, 0, 0));
        }
        _ => st.ev.push((p, r, a, b)),
    }
}

fn rnd(n: u64) -> u64 {
    RND.with(|x| match &mut *x.borrow_mut() {
        Some(g) => g.below(n),
        None => 1,
    })
}

fn perturb(c: &Ctl, p: &'static str, o: usize, a: usize, b: usize) {
    if p.starts_with("sync.") {
        let r = RID.with(|x| x.get());
        let mut i = c.inst.lock().unwrap();
        if p == "sync.new" {
            i.next += 1;
            let n = i.next;
            i.of.insert(o, n);
            if i.every > 0 && n % i.every == 0 && i.ev.len() < 24 {
                i.ev.insert(n, vec![(p, 0, a, 0)]);
            }
        } else if let Some(n) = i.of.get(&o).copied() {
            if let Some(v) = i.ev.get_mut(&n) {
                if v.len() < 1200 {
                    v.push((p, r, a, if p == "sync.publish" { 1 } else { b }));
                } else {
                    // the trace is cut here
                    i.of.remove(&o);
                }
            }
            if p == "sync.gone" {
                i.of.remove(&o);
            }
        }
    }
    if p == "sync.test" {
        return; // in the mutex of the buffer
    }
    RND.with(|x| {
        let mut x = x.borrow_mut();
        if x.is_none() {
            *x = Some(Rng::new(0x5eed ^ (&*x as *const _ as u64)));
        }
    });
    match rnd(24) {
        0..=2 => std::thread::yield_now(),
        3 => std::thread::sleep(Duration::from_micros(5 + rnd(80))),
        4 if p == "sync.publish" => std::thread::sleep(Duration::from_micros(rnd(400))),
        5 if p.starts_with("c") || p.starts_with("p") => std::thread::sleep(Duration::from_micros(rnd(300))),
        _ => {}
    }
}

fn cache_gate(c: &Ctl, p: &'static str) {
    let r = RID.with(|x| x.get());
    if r == 0 || p == "sync.test" {
        return;
    }
    let mut st = c.cache.lock().unwrap();
    if st.free {
        return;
    }
    st.at[r] = p;
    st.seen[r] += 1;
    c.cc.notify_all();
    let (mut st, _) = c.cc.wait_timeout_while(st, Duration::from_secs(8), |s| !s.free && s.go[r] == 0).unwrap();
    if st.go[r] > 0 {
        st.go[r] -= 1;
    }
    st.at[r] = "";
    c.cc.notify_all();
}

pub fn region(c: &Container, a: jbk::ContentAddress) -> Result<ByteRegion, &'static str> {
    match c.get_bytes(a) {
        Ok(Some(MayMissPack::FOUND(Some(r)))) => Ok(r),
        Ok(_) => Err("none"),
        Err(_) => Err("err"),
    }
}

/// Read [o, o+n) of the region in some way.
fn read_part(r: &ByteRegion, o: usize, n: usize, how: usize, step: usize) -> Result<Vec<u8>, ()> {
    let (oo, nn) = (jbk::Offset::from(o as u64), jbk::Size::from(n as u64));
    match how % 5 {
        0 => r.get_slice(oo, n).map(|x| x.into_owned()).map_err(|_| ()),
        1 => {
            let mut s = r.cut(oo, nn).stream();
            let (mut v, mut buf) = (vec![], vec![0u8; step.max(1)]);
            loop {
                match s.read(&mut buf) {
                    Ok(0) => return Ok(v),
                    Ok(k) => v.extend_from_slice(&buf[..k]),
                    Err(_) => return Err(()),
                }
                if v.len() > n {
                    return Ok(v);
                }
            }
        }
        2 => {
            let mut v = vec![0u8; n];
            r.cut(oo, nn).stream().read_exact(&mut v).map_err(|_| ())?;
            Ok(v)
        }
        3 => {
            // in the middle of a stream
            let mut s = r.stream();
            let mut skip = vec![0u8; o];
            s.read_exact(&mut skip).map_err(|_| ())?;
            let mut v = vec![0u8; n];
            s.read_exact(&mut v).map_err(|_| ())?;
            Ok(v)
        }
        _ => {
            let s = r.cut(oo, nn);
            let k = n / 2;
            let mut v = s.get_slice(jbk::Offset::zero(), k).map_err(|_| ())?.into_owned();
            v.extend_from_slice(&s.get_slice(jbk::Offset::from(k as u64), n - k).map_err(|_| ())?);
            Ok(v)
        }
    }
}

fn code(r: Result<Vec<u8>, ()>, want: &[u8]) -> usize {
    match r {
        Ok(v) if v == want => 0,
        Ok(v) if v.len() != want.len() => 4,
        Ok(_) => 1,
        Err(_) => 2,
    }
}

/// {"path", "sizes": [..] (blobs of the cluster), "g": [contents], "first": content id of the first blob,
///  "good": bytes which can be decoded, "walks": [{"steps", "after", "seed"}]}
pub fn sync(c: &J) -> J {
    let ctl = ctl();
    let path = c["path"].as_str().unwrap().to_string();
    let blobs: Vec<Vec<u8>> = c["g"].as_array().unwrap().iter().map(gen).collect();
    let all: Arc<Vec<u8>> = Arc::new(blobs.concat());
    let bounds: Vec<(usize, usize)> = blobs
        .iter()
        .scan(0, |p, b| {
            let s = *p;
            *p += b.len();
            Some((s, *p))
        })
        .collect();
    let good = c["good"].as_u64().unwrap() as usize;
    let mut out = vec![];
    for w in c["walks"].as_array().unwrap() {
        let x = walk(ctl, &path, w, &all, &bounds, good);
        let hang = x["hang"].as_bool().unwrap();
        out.push(x);
        if hang {
            break;
        }
    }
    json!(out)
}

fn walk(ctl: &'static Arc<Ctl>, path: &str, w: &J, all: &Arc<Vec<u8>>, bounds: &[(usize, usize)], good: usize) -> J {
    let total = all.len();
    let seed = w["seed"].as_u64().unwrap();
    let mut rng = Rng::new(seed);
    *ctl.m.lock().unwrap() =
        St { total, expect: Arc::clone(all), good, after: w["after"].as_bool().unwrap(), ..Default::default() };
    let cont = match Container::new(path) {
        Ok(c) => Arc::new(c),
        Err(_) => return json!({"hang": false, "ev": [], "open": false}),
    };
    ctl.mode.store(1, Ordering::SeqCst);
    let (dtx, drx) = mpsc::channel::<usize>();
    let mut tx = vec![];
    for r in 1..R {
        let (t, rx) = mpsc::channel::<(usize, usize, usize, usize)>();
        let (cont, all, dtx) = (Arc::clone(&cont), Arc::clone(all), dtx.clone());
        let bounds = bounds.to_vec();
        std::thread::spawn(move || {
            RID.with(|x| x.set(r));
            for (s, e, how, step) in rx {
                let k = bounds.iter().position(|b| b.0 < e && e <= b.1).unwrap();
                let s = s.max(bounds[k].0);
                ctl.m.lock().unwrap().ev.push(("begin", r, s, e));
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    match region(&cont, jbk::ContentAddress::new(1.into(), (k as u32).into())) {
                        Ok(reg) => code(read_part(&reg, s - bounds[k].0, e - s, how, step), &all[s..e]),
                        Err(_) => 2,
                    }
                }))
                .unwrap_or(3);
                let mut st = ctl.m.lock().unwrap_or_else(|e| e.into_inner());
                st.ev.push(("end", r, res, e));
                st.place[r] = 3;
                ctl.c.notify_all();
                drop(st);
                let _ = dtx.send(r);
            }
        });
        tx.push(t);
    }
    drop(dtx);
    let wait = |ms: u64, cond: &dyn Fn(&St) -> bool| {
        let st = ctl.m.lock().unwrap();
        let (_st, r) = ctl.c.wait_timeout_while(st, Duration::from_millis(ms), |s| !cond(s)).unwrap();
        !r.timed_out()
    };
    let rid = |j: &J| j.as_str().unwrap()[1..].parse::<usize>().unwrap();
    let (mut started, mut missed) = (0usize, 0usize);
    for s in w["steps"].as_array().unwrap() {
        let kind = s[0].as_str().unwrap();
        let ok = match kind {
            "B" => {
                let r = rid(&s[1]);
                let (lo, hi) = (s[2].as_u64().unwrap() as usize * CHUNK, s[3].as_u64().unwrap() as usize * CHUNK);
                // the window ends somewhere in its last chunk, starts somewhere in its first one
                let (ca, cb) = ((total.min(hi - CHUNK), total.min(hi)), (lo, total.min(lo + CHUNK)));
                let e = match rng.below(4) {
                    0 => ca.0 + 1,
                    1 => ca.1,
                    _ => ca.0 + 1 + rng.below((ca.1 - ca.0) as u64) as usize,
                };
                let s0 = match rng.below(3) {
                    0 => cb.0,
                    _ => (cb.0 + rng.below((cb.1 - cb.0) as u64) as usize).min(e - 1),
                };
                {
                    let mut st = ctl.m.lock().unwrap();
                    st.t[r] = false;
                    st.s[r] = false;
                    st.place[r] = 0;
                    st.tests[r] = 0;
                }
                tx[r - 1].send((s0, e, rng.below(5) as usize, [1, 100, 4096, 5000][rng.below(4) as usize].max(1))).unwrap();
                started += 1;
                wait(300, &|s| s.place[r] != 0)
            }
            "T" => {
                let r = rid(&s[1]);
                ctl.m.lock().unwrap().t[r] = true;
                ctl.c.notify_all();
                wait(60, &|s| s.tests[r] > 0 || s.place[r] >= 2)
            }
            "S" => {
                let r = rid(&s[1]);
                ctl.m.lock().unwrap().s[r] = true;
                ctl.c.notify_all();
                wait(60, &|s| s.place[r] == 3)
            }
            "W" => {
                let k = s[1].as_u64().unwrap() as usize;
                ctl.m.lock().unwrap().allowed = (k * CHUNK).min(total);
                ctl.c.notify_all();
                wait(60, &|s| s.notified >= s.allowed.min(s.good))
            }
            _ => {
                ctl.m.lock().unwrap().drop_ok = true;
                ctl.c.notify_all();
                wait(60, &|s| s.gone)
            }
        };
        if !ok {
            missed += 1;
        }
    }
    ctl.m.lock().unwrap().free = true;
    ctl.c.notify_all();
    drop(tx);
    let end = Instant::now() + Duration::from_secs(20);
    let mut done = 0;
    let mut hang = false;
    while done < started {
        match drx.recv_timeout(end.saturating_duration_since(Instant::now())) {
            Ok(_) => done += 1,
            Err(_) => {
                hang = true;
                break;
            }
        }
    }
    if !hang {
        // the writer must go too
        hang = !wait(10000, &|s| s.gone || s.object == 0);
    }
    ctl.mode.store(0, Ordering::SeqCst);
    let st = ctl.m.lock().unwrap();
    let ev: Vec<J> = st.ev.iter().map(|e| json!([&e.0[..], e.1, e.2, e.3])).collect();
    json!({"hang": hang, "open": true, "ev": ev, "missed": missed, "total": total, "good": good})
}

/// Free run: {"path", "n": number of contents, "kind"/"sizes".., "threads", "ms", "reads", "seed", "every"}
/// The contents are those of "contents" (as given to the creation); pack 1.
pub fn storm(c: &J) -> J {
    let ctl = ctl();
    let path = c["path"].as_str().unwrap();
    let mut want: Vec<Vec<u8>> = vec![];
    let mut addr: Vec<jbk::ContentAddress> = vec![];
    for p in c["packs"].as_array().unwrap() {
        for (i, g) in p["g"].as_array().unwrap().iter().enumerate() {
            let rep = g["rep"].as_u64().unwrap_or(1);
            let _ = i;
            for k in 0..rep {
                want.push(gen(&json!([g["g"][0], g["g"][1], g["g"][2].as_u64().unwrap_or(0) + k])));
            }
        }
        let first = addr.len();
        for k in first..want.len() {
            addr.push(jbk::ContentAddress::new((p["id"].as_u64().unwrap() as u16).into(), ((k - first) as u32).into()));
        }
    }
    let (want, addr) = (Arc::new(want), Arc::new(addr));
    let hot: Arc<Vec<usize>> = Arc::new(c["hot"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect());
    let threads = c["threads"].as_u64().unwrap() as usize;
    let reads = c["reads"].as_u64().unwrap() as usize;
    let seed = c["seed"].as_u64().unwrap();
    *ctl.inst.lock().unwrap() = Inst { every: c["every"].as_u64().unwrap() as usize, ..Default::default() };
    ctl.bad.lock().unwrap().clear();
    let cont = match Container::new(path) {
        Ok(c) => Arc::new(c),
        Err(_) => return json!({"hang": false, "open": false, "bad": [], "reads": 0, "inst": []}),
    };
    let dirs: Arc<J> = Arc::new(c["dir"].clone());
    // what a reader alone sees
    let alone: J = match Container::new(path) {
        Ok(c) => dirs["idx"]
            .as_array()
            .unwrap()
            .iter()
            .map(|n| (n.as_str().unwrap().to_string(), crate::dump::index(&c, n.as_str().unwrap(), 4096)))
            .collect::<serde_json::Map<_, _>>()
            .into(),
        Err(_) => json!({}),
    };
    let store_ref = Arc::new(alone);
    ctl.mode.store(if c["calm"].as_bool().unwrap_or(false) { 0 } else { 2 }, Ordering::SeqCst);
    let (dtx, drx) = mpsc::channel::<usize>();
    let barrier = Arc::new(std::sync::Barrier::new(threads));
    for t in 0..threads {
        let (cont, want, addr, hot, dtx, barrier) =
            (Arc::clone(&cont), Arc::clone(&want), Arc::clone(&addr), Arc::clone(&hot), dtx.clone(), Arc::clone(&barrier));
        let (dirs, store_ref) = (Arc::clone(&dirs), Arc::clone(&store_ref));
        std::thread::spawn(move || {
            RID.with(|x| x.set(t + 1));
            let mut g = Rng::new(seed * 1000 + t as u64);
            RND.with(|x| *x.borrow_mut() = Some(Rng::new(seed * 77 + t as u64)));
            let mut kept: Vec<(usize, ByteRegion)> = vec![];
            barrier.wait();
            let mut n = 0;
            let mut late = |b: J| ctl.bad.lock().unwrap().push(b);
            if let Some(q) = dirs.as_object() {
                // first access to the stores by everybody at once
                for name in q["idx"].as_array().unwrap() {
                    let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        crate::dump::index(&*cont, name.as_str().unwrap(), 4096)
                    }))
                    .unwrap_or(json!("panic"));
                    if d != store_ref[name.as_str().unwrap()] {
                        late(json!(["dir", t, name, 1]));
                    }
                }
            }
            while n < reads {
                n += 1;
                let k = match g.below(4) {
                    0 => hot[(g.below(hot.len() as u64)) as usize],
                    1 => (n * 131 + t * 7) % want.len(),
                    _ => g.below(want.len() as u64) as usize,
                };
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let (k, reg) = if !kept.is_empty() && g.below(5) == 0 {
                        // a region which was got a while ago
                        kept.swap_remove(g.below(kept.len() as u64) as usize)
                    } else {
                        match region(&cont, addr[k]) {
                            Ok(r) => (k, r),
                            Err(_) => return (k, 0, 0, 2),
                        }
                    };
                    let w = &want[k];
                    if reg.size().into_u64() as usize != w.len() {
                        return (k, 0, 0, 4);
                    }
                    let o = match g.below(3) {
                        0 => 0,
                        _ => g.below(w.len() as u64 + 1) as usize,
                    };
                    let n = match g.below(3) {
                        0 => w.len() - o,
                        _ => g.below((w.len() - o) as u64 + 1) as usize,
                    };
                    let x = code(
                        read_part(&reg, o, n, g.below(5) as usize, 1 + g.below(9000) as usize),
                        &w[o..o + n],
                    );
                    if kept.len() < 60 && g.below(3) == 0 {
                        kept.push((k, reg));
                    }
                    (k, o, n, x)
                }))
                .unwrap_or((k, 0, 0, 3));
                if res.3 != 0 {
                    late(json!(["read", t, res.0, res.1, res.2, res.3]));
                }
            }
            let _ = dtx.send(n);
        });
    }
    drop(dtx);
    let end = Instant::now() + Duration::from_secs(c["limit"].as_u64().unwrap_or(60));
    let (mut done, mut total, mut hang) = (0, 0, false);
    while done < threads {
        match drx.recv_timeout(end.saturating_duration_since(Instant::now())) {
            Ok(n) => {
                done += 1;
                total += n
            }
            Err(_) => {
                hang = true;
                break;
            }
        }
    }
    ctl.mode.store(0, Ordering::SeqCst);
    let bad: Vec<J> = ctl.bad.lock().unwrap().iter().take(20).cloned().collect();
    let i = ctl.inst.lock().unwrap();
    let inst: Vec<J> =
        i.ev.values().map(|v| J::Array(v.iter().map(|e| json!([&e.0[..], e.1, e.2, e.3])).collect())).collect();
    json!({"hang": hang, "open": true, "bad": bad, "reads": total, "inst": inst, "decodings": i.next})
}

/// Schedules of ClusterCache.tla: {"path", "of": [content id of a blob in each cluster], "g": the contents,
///  "fill": [content ids, each in another cluster], "walks": [[step..]..]}
/// steps: ["G", r, c] (reader r starts reading in cluster c), ["P", r] (goes on until its next point), ["E"] (everything is evicted)
pub fn cache(c: &J) -> J {
    let ctl = ctl();
    let path = c["path"].as_str().unwrap();
    let of: Vec<u32> = c["of"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let want: Arc<Vec<Vec<u8>>> = Arc::new(c["g"].as_array().unwrap().iter().map(gen).collect());
    let fill: Vec<u32> = c["fill"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let mut out = vec![];
    for w in c["walks"].as_array().unwrap() {
        let cont = match Container::new(path) {
            Ok(c) => Arc::new(c),
            Err(_) => return json!("open"),
        };
        *ctl.cache.lock().unwrap() = Default::default();
        ctl.mode.store(3, Ordering::SeqCst);
        let (dtx, drx) = mpsc::channel::<(usize, usize, usize)>();
        let mut tx = vec![];
        for r in 1..R {
            let (t, rx) = mpsc::channel::<(usize, usize)>();
            let (cont, want, dtx, of) = (Arc::clone(&cont), Arc::clone(&want), dtx.clone(), of.clone());
            std::thread::spawn(move || {
                RID.with(|x| x.set(r));
                for (cl, how) in rx {
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        match region(&cont, jbk::ContentAddress::new(1.into(), of[cl].into())) {
                            Ok(reg) => {
                                let w = &want[cl];
                                let (o, n) = (w.len() / 3, w.len() - w.len() / 3);
                                code(read_part(&reg, o, n, how, 3000), &w[o..o + n])
                            }
                            Err(_) => 2,
                        }
                    }))
                    .unwrap_or(3);
                    let mut st = ctl.cache.lock().unwrap();
                    st.at[r] = "over";
                    st.seen[r] += 1;
                    ctl.cc.notify_all();
                    drop(st);
                    let _ = dtx.send((r, cl, res));
                }
            });
            tx.push(t);
        }
        drop(dtx);
        let (mut started, mut missed) = (0, 0);
        let (ftx, frx) = mpsc::channel::<()>();
        let mut fills = 0;
        let until = |r: usize, seen: usize, ms: u64| {
            let st = ctl.cache.lock().unwrap();
            let (_s, to) = ctl.cc.wait_timeout_while(st, Duration::from_millis(ms), |s| s.seen[r] == seen).unwrap();
            !to.timed_out()
        };
        for s in w["steps"].as_array().unwrap() {
            let ok = match s[0].as_str().unwrap() {
                "G" => {
                    let r = s[1].as_str().unwrap()[1..].parse::<usize>().unwrap();
                    let seen = ctl.cache.lock().unwrap().seen[r];
                    started += 1;
                    tx[r - 1].send((s[2].as_u64().unwrap() as usize - 1, s[3].as_u64().unwrap_or(0) as usize)).unwrap();
                    until(r, seen, 100)
                }
                "P" => {
                    let r = s[1].as_str().unwrap()[1..].parse::<usize>().unwrap();
                    let seen = {
                        let mut st = ctl.cache.lock().unwrap();
                        if st.at[r] == "over" {
                            continue; // (it needed less steps than the model)
                        }
                        st.go[r] = 1;
                        st.seen[r]
                    };
                    ctl.cc.notify_all();
                    until(r, seen, 8)
                }
                _ => {
                    let (cont, fill, ftx) = (Arc::clone(&cont), fill.clone(), ftx.clone());
                    fills += 1;
                    std::thread::spawn(move || {
                        for i in fill {
                            let _ = region(&cont, jbk::ContentAddress::new(1.into(), i.into()));
                        }
                        let _ = ftx.send(());
                    });
                    frx.recv_timeout(Duration::from_millis(100)).map(|_| fills -= 1).is_ok()
                }
            };
            if !ok {
                missed += 1;
            }
        }
        ctl.cache.lock().unwrap().free = true;
        ctl.cc.notify_all();
        drop(tx);
        let end = Instant::now() + Duration::from_secs(20);
        let (mut res, mut hang) = (vec![], false);
        while res.len() < started {
            match drx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(x) => res.push(json!([x.0, x.1 + 1, x.2])),
                Err(_) => {
                    hang = true;
                    break;
                }
            }
        }
        while fills > 0 && !hang {
            match frx.recv_timeout(Duration::from_secs(10)) {
                Ok(_) => fills -= 1,
                Err(_) => hang = true,
            }
        }
        ctl.mode.store(0, Ordering::SeqCst);
        out.push(json!({"hang": hang, "reads": res, "missed": missed, "started": started}));
        if hang {
            break;
        }
    }
    json!(out)
}

//! Builds containers from JSON descriptions with the real creator API.
use crate::gen::*;
use jubako as jbk;
use jbk::creator::schema::{self, Property};
use jbk::creator::{AtomicOutFile, BasicCreator, BasicEntry, CacheProgress, CachedContentAdder, CompHint, Compression, ConcatMode, ContentAdder, ContentPackCreator, DirectoryPackCreator, EntryStore, EntryStoreTrait, InputFile, InputReader, ManifestPackCreator, PackData, PackRecipient, Progress, StoreHandle, ValueStore};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const VENDOR: jbk::VendorId = jbk::VendorId::new([0x4a, 0x56, 0x01, 0x02]);

pub fn leak(s: &str) -> &'static str {
    static M: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = M.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}

pub fn compression(j: &J) -> Compression {
    if j.is_null() {
        return Compression::None;
    }
    let lvl = j.get(1).and_then(|x| x.as_i64());
    match j[0].as_str().unwrap() {
        "none" => Compression::None,
        "lz4" => match lvl {
            None => Compression::lz4(),
            Some(l) => Compression::Lz4(deranged::RangedU32::new(l as u32).unwrap()),
        },
        "lzma" => match lvl {
            None => Compression::lzma(),
            Some(l) => Compression::Lzma(deranged::RangedU32::new(l as u32).unwrap()),
        },
        "zstd" => match lvl {
            None => Compression::zstd(),
            Some(l) => Compression::Zstd(deranged::RangedI32::new(l as i32).unwrap()),
        },
        x => panic!("compression {x}"),
    }
}

pub fn hint(j: &J) -> CompHint {
    match j.as_str().unwrap_or("d") {
        "y" => CompHint::Yes,
        "n" => CompHint::No,
        _ => CompHint::Detect,
    }
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

pub fn scratch(name: &str) -> std::path::PathBuf {
    let d = std::env::var("JV_SCRATCH").expect("JV_SCRATCH");
    std::path::Path::new(&d).join(format!("{}-{}-{}", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed), name))
}

pub fn input(c: &J, data: Vec<u8>) -> Box<dyn InputReader> {
    match c["src"].as_str().unwrap_or("mem") {
        "mem" => Box::new(std::io::Cursor::new(data)),
        "file" => {
            let p = scratch("in");
            std::fs::write(&p, &data).unwrap();
            let f = std::fs::File::open(&p).unwrap();
            std::fs::remove_file(&p).unwrap();
            Box::new(InputFile::new(f).unwrap())
        }
        k @ ("range" | "tail") => {
            let p = scratch("in");
            let before = c["before"].as_u64().unwrap_or(37) as usize;
            let mut all = gen_parts("r", before, 99);
            all.extend_from_slice(&data);
            if k == "range" {
                all.extend_from_slice(&gen_parts("r", c["after"].as_u64().unwrap_or(53) as usize, 98));
            }
            std::fs::write(&p, &all).unwrap();
            let f = std::fs::File::open(&p).unwrap();
            std::fs::remove_file(&p).unwrap();
            let size = if k == "range" { Some(data.len() as u64) } else { None };
            Box::new(InputFile::new_range(f, before as u64, size).unwrap())
        }
        k => panic!("src {k}"),
    }
}

/// Progress implementation recording events and perturbing the schedule.
pub struct Prog {
    pub log: Mutex<Vec<J>>,
    pub seed: u64,
    pub n: AtomicU64,
    /// per (event kind, cluster) delays in ms: {"h3": 20, "w0": 10, ...}
    pub plan: HashMap<String, u64>,
    /// order in which the clusters should reach the file (compressed clusters are held back), best effort
    pub order: Vec<u32>,
    pub written: Mutex<Vec<u32>>,
    pub cond: std::sync::Condvar,
}

/// How long a gate holds a thread back before giving up on the requested order.
const GATE_MS: u64 = 2500;

impl Prog {
    pub fn new(seed: u64, plan: &J) -> Arc<Self> {
        let mut m = HashMap::new();
        if let Some(o) = plan.as_object() {
            for (k, v) in o {
                if let Some(v) = v.as_u64() {
                    m.insert(k.clone(), v);
                }
            }
        }
        let order = plan["order"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default();
        Arc::new(Prog {
            log: Mutex::new(vec![]),
            seed,
            n: AtomicU64::new(0),
            plan: m,
            order,
            written: Mutex::new(vec![]),
            cond: std::sync::Condvar::new(),
        })
    }
    /// Waits until every cluster of `ids` is written (or the gate times out).
    pub fn wait_written(&self, ids: &[u32]) {
        if ids.is_empty() {
            return;
        }
        let g = self.written.lock().unwrap();
        let _ = self
            .cond
            .wait_timeout_while(g, std::time::Duration::from_millis(GATE_MS), |w| !ids.iter().all(|i| w.contains(i)))
            .unwrap();
    }
    fn ev(&self, kind: &str, cluster: u32, comp: i32) {
        self.log.lock().unwrap().push(json!([kind, cluster, comp]));
        if let Some(d) = self.plan.get(&format!("{kind}{cluster}")) {
            std::thread::sleep(std::time::Duration::from_millis(*d));
        } else if self.seed != 0 {
            let k = self.n.fetch_add(1, Ordering::Relaxed);
            let d = Rng::new(self.seed.wrapping_add(k * 7919)).below(6);
            if d >= 3 {
                std::thread::sleep(std::time::Duration::from_micros((d - 2) * 700));
            }
        }
    }
}

impl Progress for Prog {
    fn new_cluster(&self, i: u32, c: bool) {
        self.ev("n", i, c as i32)
    }
    fn handle_cluster(&self, i: u32, c: bool) {
        self.ev("h", i, c as i32);
        if c {
            if let Some(p) = self.order.iter().position(|x| *x == i) {
                self.wait_written(&self.order[..p]);
            }
        }
    }
    fn handle_cluster_written(&self, i: u32) {
        self.ev("w", i, -1);
        self.written.lock().unwrap().push(i);
        self.cond.notify_all();
    }
    fn content_added(&self, _s: jbk::Size) {}
}

pub fn addr(a: jbk::ContentAddress) -> J {
    json!([a.pack_id.into_u64(), a.content_id.into_u32().to_le_bytes().to_vec()])
}

pub fn addr_of(j: &J) -> jbk::ContentAddress {
    let b: [u8; 4] = bytes_of(&j[1]).try_into().unwrap();
    jbk::ContentAddress::new((j[0].as_u64().unwrap() as u16).into(), u32::from_le_bytes(b).into())
}

type ES = Box<EntryStore<&'static str, &'static str, BasicEntry<&'static str, &'static str>>>;

pub struct DirState {
    pub vs: Vec<StoreHandle>,
    pub stores: Vec<ES>,
    pub handles: Arc<Mutex<Vec<Vec<jbk::Bound<jbk::EntryIdx>>>>>,
    pub spec: J,
}

fn props(j: &J, vs: &[StoreHandle]) -> Vec<Property<&'static str>> {
    j.as_array()
        .map(|a| {
            a.iter()
                .map(|p| match p[0].as_str().unwrap() {
                    "u" => Property::new_uint(leak(p[1].as_str().unwrap())),
                    "s" => Property::new_sint(leak(p[1].as_str().unwrap())),
                    "a" => Property::new_array(
                        p[2].as_u64().unwrap() as usize,
                        vs[p[3].as_u64().unwrap() as usize].clone(),
                        leak(p[1].as_str().unwrap()),
                    ),
                    "c" => Property::new_content_address(leak(p[1].as_str().unwrap())),
                    "p" => Property::Padding(p[1].as_u64().unwrap() as u8),
                    x => panic!("prop {x}"),
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Build value/entry stores with their rows. `contents`: addresses of already added contents ("lc").
pub fn build_dir(spec: &J, contents: &[jbk::ContentAddress]) -> DirState {
    let vs: Vec<StoreHandle> = spec["vs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|k| match k.as_str().unwrap() {
            "plain" => ValueStore::new_plain(None),
            _ => ValueStore::new_indexed(),
        })
        .collect();
    let specs = spec["stores"].as_array().unwrap();
    // one vow per row of every store, created first: references may go anywhere
    let vows: Vec<Vec<jbk::Vow<jbk::EntryIdx>>> = specs
        .iter()
        .map(|s| s["rows"].as_array().unwrap().iter().map(|_| jbk::Vow::new(jbk::EntryIdx::from(0))).collect())
        .collect();
    let bounds: Vec<Vec<jbk::Bound<jbk::EntryIdx>>> =
        vows.iter().map(|v| v.iter().map(|w| w.bind()).collect()).collect();
    let mut stores: Vec<ES> = vec![];
    let mut handles = vec![];
    for (s, vows) in specs.iter().zip(vows) {
        let common = schema::CommonProperties::new(props(&s["common"], &vs));
        let variants = s["variants"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|v| (leak(v[0].as_str().unwrap()), schema::VariantProperties::new(props(&v[1], &vs))))
                    .collect::<Vec<_>>()
            })
            .unwrap_or_default();
        let sort = s["sort"]
            .as_array()
            .map(|a| a.iter().map(|k| leak(k.as_str().unwrap())).collect::<Vec<_>>());
        let sch = schema::Schema::new(common, variants, sort);
        let mut store: ES = Box::new(EntryStore::new(sch, None));
        let mut hs = vec![];
        for (r, vow) in s["rows"].as_array().unwrap().iter().zip(vows) {
            let mut vals: HashMap<&'static str, jbk::Value> = HashMap::new();
            for (k, v) in r["vals"].as_object().unwrap() {
                let val = match v[0].as_str().unwrap() {
                    "u" => jbk::Value::Unsigned(u64::from_le_bytes(le8(&v[1]))),
                    "s" => jbk::Value::Signed(i64::from_le_bytes(le8(&v[1]))),
                    "a" => jbk::Value::Array(bytes_of(&v[1]).as_slice().into()),
                    "g" => jbk::Value::Array(gen(&v[1]).as_slice().into()),
                    "c" => jbk::Value::Content(jbk::ContentAddress::new(
                        (v[1].as_u64().unwrap() as u16).into(),
                        u32::from_le_bytes(bytes_of(&v[2]).try_into().unwrap()).into(),
                    )),
                    "lc" => jbk::Value::Content(contents[v[1].as_u64().unwrap() as usize]),
                    "ref" => {
                        let b = &bounds[v[1].as_u64().unwrap() as usize][v[2].as_u64().unwrap() as usize];
                        let b2 = b.clone();
                        let f: Box<dyn Fn() -> u64 + Sync + Send> = Box::new(move || b2.get().into_u32() as u64);
                        jbk::Value::UnsignedWord(f.into())
                    }
                    "sref" => {
                        let b = &bounds[v[1].as_u64().unwrap() as usize][v[2].as_u64().unwrap() as usize];
                        let b2 = b.clone();
                        let f: Box<dyn Fn() -> i64 + Sync + Send> = Box::new(move || b2.get().into_u32() as i64);
                        jbk::Value::SignedWord(f.into())
                    }
                    "wref" => {
                        let b = &bounds[v[1].as_u64().unwrap() as usize][v[2].as_u64().unwrap() as usize];
                        // the conversion the library itself offers
                        jbk::Value::UnsignedWord(b.clone().into())
                    }
                    x => panic!("val {x}"),
                };
                vals.insert(leak(k), val);
            }
            let vname = r["v"].as_str().map(leak);
            let e = BasicEntry::new_from_schema_idx(&store.schema, vow, vname, vals);
            hs.push(store.add_entry(e));
        }
        stores.push(store);
        handles.push(hs);
    }
    DirState { vs, stores, handles: Arc::new(Mutex::new(handles)), spec: spec.clone() }
}

pub struct DirFinal {
    pub st: DirState,
}

impl EntryStoreTrait for DirFinal {
    fn finalize(self: Box<Self>, dp: &mut DirectoryPackCreator) {
        fill_dir(self.st, dp)
    }
}

/// Registers stores and indexes. An index offset is a number or ["ref", store, row].
pub fn fill_dir(st: DirState, dp: &mut DirectoryPackCreator) {
    let spec = st.spec.clone();
    for v in st.vs {
        dp.add_value_store(v);
    }
    let handles = st.handles.lock().unwrap();
    let mut ids = vec![];
    for s in st.stores {
        ids.push(dp.add_entry_store(s));
    }
    for i in spec["idx"].as_array().unwrap() {
        let off = &i["off"];
        let free: [u8; 4] = i["free"].as_array().map(|_| bytes_of(&i["free"]).try_into().unwrap()).unwrap_or([0; 4]);
        let sid = i["store"].as_u64().unwrap() as usize;
        let name = i["name"].as_str().unwrap();
        let cnt = (i["count"].as_u64().unwrap() as u32).into();
        let key = (i["key"].as_u64().unwrap_or(0) as u8).into();
        if off.is_array() {
            let b = handles[off[1].as_u64().unwrap() as usize][off[2].as_u64().unwrap() as usize].clone();
            dp.create_index(name, free.into(), key, ids[sid], cnt, b.into());
        } else {
            dp.create_index(
                name,
                free.into(),
                key,
                ids[sid],
                cnt,
                jbk::EntryIdx::from(off.as_u64().unwrap() as u32).into(),
            );
        }
    }
}

fn es<E: std::fmt::Display>(e: E) -> String {
    format!("{e}")
}

pub struct Built {
    pub adds: Vec<J>,
    pub addrs: Vec<jbk::ContentAddress>,
    pub handles: Option<Arc<Mutex<Vec<Vec<jbk::Bound<jbk::EntryIdx>>>>>>,
    pub prog: Vec<J>,
}

impl Built {
    pub fn handles_json(&self) -> J {
        match &self.handles {
            None => json!([]),
            Some(h) => J::Array(
                h.lock()
                    .unwrap()
                    .iter()
                    .map(|s| J::Array(s.iter().map(|b| json!(b.get().into_u32())).collect()))
                    .collect(),
            ),
        }
    }
}

struct CP(std::sync::Mutex<Vec<u64>>);
impl CacheProgress for CP {
    fn cached_data(&self, s: jbk::Size) {
        self.0.lock().unwrap().push(s.into_u64())
    }
}

fn ids_of(j: &J) -> Vec<u32> {
    j.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default()
}

pub fn add_all<A: ContentAdder + 'static>(
    a: &mut A,
    prog: &Prog,
    contents: &J,
    adds: &mut Vec<J>,
    addrs: &mut Vec<jbk::ContentAddress>,
    pack: u64,
) -> Result<(), String> {
    if let Some(cs) = contents.as_array() {
        for c in cs {
            // {"rep": n, ...}: n contents with consecutive seeds
            let rep = c["rep"].as_u64().unwrap_or(1);
            prog.wait_written(&ids_of(&c["wait"]));
            for k in 0..rep {
                let g = if rep == 1 {
                    c["g"].clone()
                } else {
                    json!([c["g"][0], c["g"][1], c["g"][2].as_u64().unwrap_or(0) + k])
                };
                let data = gen(&g);
                let o = obs(&data);
                let r = a.add_content(input(c, data), hint(&c["hint"])).map_err(es)?;
                adds.push(json!({"obs": o, "hint": c["hint"].as_str().unwrap_or("d"), "pack": pack, "addr": addr(r), "src": c["src"].as_str().unwrap_or("mem")}));
                addrs.push(r);
            }
        }
    }
    Ok(())
}

/// A standalone content pack (not in a container).
pub fn content_pack(spec: &J, path: &str, id: u16, b: &mut Built) -> Result<PackData, String> {
    let prog = Prog::new(spec["delay"].as_u64().unwrap_or(0), &spec["plan"]);
    let cp = ContentPackCreator::new_with_progress(
        path,
        id.into(),
        VENDOR,
        free24(spec, "cfree").into(),
        compression(&spec["comp"]),
        prog.clone(),
    )
    .map_err(es)?;
    let cp = if spec["dedup"].as_bool().unwrap_or(false) {
        let mut c = CachedContentAdder::new(cp, std::rc::Rc::new(CP(Default::default())));
        add_all(&mut c, &prog, &spec["contents"], &mut b.adds, &mut b.addrs, id as u64)?;
        c.into_inner()
    } else {
        let mut cp = cp;
        add_all(&mut cp, &prog, &spec["contents"], &mut b.adds, &mut b.addrs, id as u64)?;
        cp
    };
    prog.wait_written(&ids_of(&spec["finwait"]));
    let (_f, info) = cp.finalize().map_err(es)?;
    b.prog.extend(prog.log.lock().unwrap().drain(..));
    Ok(info)
}

pub fn free24(spec: &J, k: &str) -> [u8; 24] {
    let mut f = [0u8; 24];
    if let Some(s) = spec[k].as_u64() {
        f.copy_from_slice(&gen_parts("r", 24, s));
    }
    f
}

fn rw(path: &str) -> std::fs::File {
    std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap()
}

/// Build a whole container.
pub fn container(spec: &J) -> Result<Built, String> {
    let out = spec["out"].as_str().unwrap();
    let mode = spec["mode"].as_str().unwrap();
    let mut b = Built { adds: vec![], addrs: vec![], handles: None, prog: vec![] };
    if mode == "manual" {
        return manual(spec, b);
    }
    let prog = Prog::new(spec["delay"].as_u64().unwrap_or(0), &spec["plan"]);
    let cm = match mode {
        "one" => ConcatMode::OneFile,
        "two" => ConcatMode::TwoFiles,
        _ => ConcatMode::NoConcat,
    };
    let bc = BasicCreator::new(out, cm, VENDOR, compression(&spec["comp"]), prog.clone()).map_err(es)?;
    let bc = if spec["dedup"].as_bool().unwrap_or(false) {
        let mut c = CachedContentAdder::new(bc, std::rc::Rc::new(CP(Default::default())));
        add_all(&mut c, &prog, &spec["contents"], &mut b.adds, &mut b.addrs, 1)?;
        c.into_inner()
    } else {
        let mut bc = bc;
        add_all(&mut bc, &prog, &spec["contents"], &mut b.adds, &mut b.addrs, 1)?;
        bc
    };
    let mut extra = vec![];
    if let Some(xs) = spec["extra"].as_array() {
        for x in xs {
            let file: Box<dyn PackRecipient> = AtomicOutFile::new(x["path"].as_str().unwrap()).map_err(es)?;
            let id = x["id"].as_u64().unwrap() as u16;
            let mut cp: ContentPackCreator<dyn PackRecipient> = ContentPackCreator::new_from_output_with_progress(
                file,
                id.into(),
                VENDOR,
                Default::default(),
                compression(&x["comp"]),
                Arc::new(()),
            )
            .map_err(es)?;
            for c in x["contents"].as_array().unwrap() {
                let data = gen(&c["g"]);
                let o = obs(&data);
                let r = cp.add_content(input(c, data), hint(&c["hint"])).map_err(es)?;
                b.adds.push(json!({"obs": o, "hint": c["hint"].as_str().unwrap_or("d"), "pack": id, "addr": addr(r), "src": "mem"}));
                b.addrs.push(r);
            }
            extra.push(cp);
        }
    }
    let st = build_dir(&spec["dir"], &b.addrs);
    b.handles = Some(st.handles.clone());
    prog.wait_written(&ids_of(&spec["finwait"]));
    bc.finalize(Box::new(DirFinal { st }), extra).map_err(es)?;
    b.prog.extend(prog.log.lock().unwrap().drain(..));
    Ok(b)
}

/// Packs written separately and assembled by hand with a manifest (as examples/simple_create.rs).
/// packs: [{id, file, loc, contents, comp}], dir: {..., file, loc}, out: manifest path
fn manual(spec: &J, mut b: Built) -> Result<Built, String> {
    let mut infos = vec![];
    for p in spec["packs"].as_array().unwrap() {
        let info = content_pack(p, p["file"].as_str().unwrap(), p["id"].as_u64().unwrap() as u16, &mut b)?;
        infos.push((info, p["loc"].as_str().unwrap().to_string()));
    }
    let mut dp = DirectoryPackCreator::new((spec["dirid"].as_u64().unwrap_or(0) as u16).into(), VENDOR, free24(spec, "dfree").into());
    let st = build_dir(&spec["dir"], &b.addrs);
    b.handles = Some(st.handles.clone());
    fill_dir(st, &mut dp);
    let dfile = spec["dirfile"].as_str().unwrap();
    let mut f = rw(dfile);
    let dinfo = dp.finalize().map_err(es)?.write(&mut f).map_err(es)?;
    let mut m = ManifestPackCreator::new(VENDOR, free24(spec, "mfree").into());
    let dloc = spec["dirloc"].as_str().unwrap().to_string();
    let pos = spec["dirpos"].as_u64().unwrap_or(0) as usize;
    let mut all: Vec<_> = infos;
    all.insert(pos.min(all.len()), (dinfo, dloc));
    for (mut i, l) in all {
        if let Some(fs) = spec["pfree"].as_array() {
            // free data per pack id
            for fd in fs {
                if fd[0].as_u64().unwrap() == i.pack_id.into_u64() {
                    i.free_data = bytes_of(&fd[1]);
                }
            }
        }
        m.add_pack(i, l);
    }
    let mut mf = rw(spec["out"].as_str().unwrap());
    m.finalize(&mut mf).map_err(es)?;
    mf.flush().unwrap();
    Ok(b)
}

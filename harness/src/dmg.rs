//! Reading altered files: what changed, compared with the pristine ones.
use crate::dump::{err, get_bytes, index, index_typed, DirAlone, Dirs};
use crate::gen::{bytes_of, gen, u8s};
use crate::mk::addr_of;
use jubako as jbk;
use jbk::reader::{Container, MayMissPack};
use jbk::Pack;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

struct Obs {
    vals: BTreeMap<String, J>,
    /// prefixes of the keys which could not be reached because of an error
    failed: Vec<String>,
    all: String,
    files: Vec<String>,
    packs: Vec<String>,
}

impl Obs {
    fn put(&mut self, k: impl Into<String>, v: J) {
        self.vals.insert(k.into(), v);
    }
}

fn is_err(v: &J) -> bool {
    match v {
        J::Array(a) => a.first().map(|x| x == "E").unwrap_or(false),
        _ => false,
    }
}

fn chk(r: jbk::Result<bool>) -> String {
    match r {
        Ok(true) => "ok".into(),
        Ok(false) => "bad".into(),
        Err(_) => "E".into(),
    }
}

fn hdr(p: &dyn Pack) -> J {
    json!([format!("{:?}", p.kind()), format!("{:?}", p.app_vendor_id()), p.version().0, p.version().1, p.uuid().to_string(), p.size().into_u64()])
}

fn info(p: &jbk::reader::PackInfo) -> J {
    crate::man::missing(p)
}

/// One pack of a file, by its uuid.
fn pack(o: &mut Obs, k: usize, c: &jbk::reader::ContainerPack, u: uuid::Uuid, kind: &str) {
    let pre = format!("p{k}.");
    let r = match c.get_pack_reader(&u) {
        None => {
            o.put(format!("{pre}there"), json!(false));
            o.packs[k] = "none".into();
            return;
        }
        Some(r) => r,
    };
    o.put(format!("{pre}there"), json!(true));
    pack_in(o, k, r, kind)
}

fn pack_in(o: &mut Obs, k: usize, r: jbk::Reader, kind: &str) {
    let pre = format!("p{k}.");
    let go = |o: &mut Obs| -> jbk::Result<String> {
        Ok(match kind {
            "c" => {
                let p = jbk::reader::ContentPack::new(r)?;
                o.put(format!("{pre}hdr"), hdr(&p));
                o.put(format!("{pre}count"), json!(p.get_content_count().into_u32()));
                o.put(format!("{pre}free"), json!(u8s(p.get_free_data())));
                chk(p.check())
            }
            "d" => {
                let p = jbk::reader::DirectoryPack::new(r)?;
                o.put(format!("{pre}hdr"), hdr(&p));
                o.put(format!("{pre}free"), json!(u8s(p.get_free_data())));
                chk(p.check())
            }
            _ => {
                let p = jbk::reader::ManifestPack::new(r)?;
                o.put(format!("{pre}hdr"), hdr(&p));
                o.put(format!("{pre}free"), json!(u8s(&p.get_free_data()[..])));
                o.put(format!("{pre}n"), json!(p.pack_count().into_u64()));
                o.put(format!("{pre}max"), json!(p.max_id()));
                o.put(format!("{pre}dir"), info(p.get_directory_pack_info()));
                let mut ids = vec![p.get_directory_pack_info()];
                for (i, q) in p.get_pack_infos().iter().enumerate() {
                    o.put(format!("{pre}i{i}"), info(q));
                    ids.push(q);
                }
                for (i, q) in ids.iter().enumerate() {
                    o.put(
                        format!("{pre}f{i}"),
                        match p.get_pack_free_data_uuid(q.uuid) {
                            Err(e) => err(&e),
                            Ok(None) => json!(["none"]),
                            Ok(Some(b)) => u8s(b),
                        },
                    );
                    o.put(
                        format!("{pre}k{i}"),
                        match p.get_pack_check_info(q.uuid) {
                            Err(e) => err(&e),
                            Ok(None) => json!(["none"]),
                            Ok(Some(_)) => json!(["some"]),
                        },
                    );
                }
                chk(p.check())
            }
        })
    };
    match go(o) {
        Ok(c) => o.packs[k] = c,
        Err(_) => {
            o.failed.push(pre);
            o.packs[k] = "E".into();
        }
    }
}

/// A value with several parts is compared part by part: an error in one of them says nothing on the others.
fn flat(o: &mut Obs, k: &str, e: &J) {
    if e["v"] == json!(-9) {
        if e["vn"] == json!("none") {
            o.put(k, json!("none"));
        }
        o.failed.push(format!("{k}."));
        return;
    }
    o.put(format!("{k}.v"), e["v"].clone());
    o.put(format!("{k}.vn"), e["vn"].clone());
    for (n, v) in e["vals"].as_object().unwrap() {
        o.put(format!("{k}.{n}"), v.clone());
    }
}

fn indexes<D: Dirs>(o: &mut Obs, d: &D, q: &J, at: &str) {
    for n in q["idx"].as_array().unwrap() {
        let n = n.as_str().unwrap();
        let pre = format!("{at}idx.{n}.");
        let ix = index(d, n, 4096);
        if ix["err"] == json!("") {
            o.put(format!("{pre}#count"), ix["count"].clone());
            o.put(format!("{pre}#off"), ix["off"].clone());
            o.put(format!("{pre}#past"), ix["past"].clone());
            o.put(format!("{pre}#past2"), ix["past2"].clone());
            for (i, e) in ix["entries"].as_array().unwrap().iter().enumerate() {
                flat(o, &format!("{pre}{i}"), e);
            }
        } else if ix["err"] == json!("none") {
            o.put(format!("{pre}#count"), json!("none"));
        } else {
            o.failed.push(pre);
        }
        let pre = format!("{at}typed.{n}.");
        let ty = index_typed(d, n, 4096);
        let a = ty.as_array().unwrap();
        o.put(format!("{pre}#n"), json!(a.len()));
        if a.len() == 1 && a[0]["v"] == json!(-9) {
            o.failed.push(pre.clone());
        }
        for (i, e) in a.iter().enumerate() {
            flat(o, &format!("{pre}{i}"), e);
        }
    }
}

/// The same packs from memory: their bytes cut out of the file.
fn in_memory(o: &mut Obs, dir: &Path, c: &J) {
    let q = &c["q"];
    let files: Vec<Vec<u8>> =
        c["files"].as_array().unwrap().iter().map(|f| std::fs::read(dir.join(f.as_str().unwrap())).unwrap()).collect();
    for (k, p) in c["packs"].as_array().unwrap().iter().enumerate() {
        let d = &files[p[0].as_u64().unwrap() as usize];
        let (a, n) = (p[3].as_u64().unwrap() as usize, p[4].as_u64().unwrap() as usize);
        let r = jbk::Reader::from(d.get(a..(a + n).min(d.len())).unwrap_or(&[]).to_vec());
        let pre = format!("v{k}.");
        match p[2].as_str().unwrap() {
            "d" => match jbk::reader::DirectoryPack::new(r) {
                Err(_) => o.failed.push(pre),
                Ok(p) => {
                    let d = DirAlone::new(p);
                    o.put(format!("{pre}hdr"), hdr(&*d.p));
                    indexes(o, &d, q, &pre);
                }
            },
            "c" => match jbk::reader::ContentPack::new(r) {
                Err(_) => {
                    o.failed.push(pre);
                    o.failed.push(format!("w{k}."));
                }
                Ok(cp) => {
                    let n = cp.get_content_count().into_u32();
                    o.put(format!("{pre}hdr"), hdr(&cp));
                    o.put(format!("{pre}n"), json!(n));
                    for a in p[5].as_array().unwrap() {
                        let i = a[1].as_u64().unwrap() as u32;
                        match cp.get_content(i.into()) {
                            Err(e) => {
                                o.put(format!("{pre}{i}"), err(&e));
                                o.failed.push(format!("w{k}.{}", a[0]));
                            }
                            Ok(None) => {
                                o.put(format!("{pre}{i}"), json!("none"));
                                o.failed.push(format!("w{k}.{}", a[0]));
                            }
                            Ok(Some(r)) => {
                                o.put(format!("{pre}{i}"), json!(r.size().into_u64()));
                                o.put(format!("w{k}.{}", a[0]), crate::dump::region_obs(&r));
                            }
                        }
                    }
                }
            },
            _ => match jbk::reader::ManifestPack::new(r) {
                Err(_) => o.failed.push(pre),
                Ok(m) => {
                    o.put(format!("{pre}hdr"), hdr(&m));
                    for (i, q) in m.get_pack_infos().iter().enumerate() {
                        o.put(format!("{pre}i{i}"), info(q));
                    }
                }
            },
        }
    }
}

fn observe(dir: &Path, c: &J) -> Obs {
    let q = &c["q"];
    let files: Vec<PathBuf> = c["files"].as_array().unwrap().iter().map(|f| dir.join(f.as_str().unwrap())).collect();
    let packs = c["packs"].as_array().unwrap();
    let mut o = Obs { vals: BTreeMap::new(), failed: vec![], all: String::new(), files: vec![], packs: vec!["?".into(); packs.len()] };
    if c["mem"].as_bool().unwrap_or(false) {
        in_memory(&mut o, dir, c);
    }
    // every pack by itself
    for (i, f) in files.iter().enumerate() {
        match jbk::tools::open_pack(f) {
            // tools::open_pack does not look for a container behind something else: the windows are opened
            _ if c["base"][i] != json!(0) => {
                o.files.push("ok".into());
                let d = std::fs::read(f).unwrap();
                for (k, p) in packs.iter().enumerate() {
                    if p[0] == json!(i) {
                        let (a, n) = (p[3].as_u64().unwrap() as usize, p[4].as_u64().unwrap() as usize);
                        let w = d.get(a..(a + n).min(d.len())).unwrap_or(&[]).to_vec();
                        pack_in(&mut o, k, jbk::Reader::from(w), p[2].as_str().unwrap());
                    }
                }
            }
            Err(_) => {
                o.files.push("E".into());
                o.failed.push(format!("f{i}."));
                for (k, p) in packs.iter().enumerate() {
                    if p[0] == json!(i) {
                        o.failed.push(format!("p{k}."));
                        o.packs[k] = "E".into();
                    }
                }
            }
            Ok(cp) => {
                o.put(format!("f{i}.n"), json!(cp.pack_count().into_u64()));
                let mut us: Vec<String> = cp.iter().map(|(u, _)| u.to_string()).collect();
                us.sort();
                o.put(format!("f{i}.uuids"), json!(us));
                for (k, p) in packs.iter().enumerate() {
                    if p[0] == json!(i) {
                        let u: [u8; 16] = bytes_of(&p[1]).try_into().unwrap();
                        pack(&mut o, k, &cp, uuid::Uuid::from_bytes(u), p[2].as_str().unwrap());
                    }
                }
                o.files.push(chk(cp.check()));
            }
        }
    }
    let cont = match Container::new(dir.join(c["entry"].as_str().unwrap())) {
        Err(_) => {
            o.all = "E".into();
            o.failed.push("c.".into());
            o.failed.push("d.".into());
            return o;
        }
        Ok(x) => x,
    };
    o.put("c.uuid", json!(cont.uuid().to_string()));
    o.put("c.npacks", json!(cont.pack_count().into_u64()));
    indexes(&mut o, &cont, q, "c.");
    for id in q["ids"].as_array().unwrap() {
        let v = match cont.get_pack((id.as_u64().unwrap() as u16).into()) {
            Err(e) => err(&e),
            Ok(None) => json!(["nopack"]),
            Ok(Some(MayMissPack::MISSING(p))) => crate::man::missing(&p),
            Ok(Some(MayMissPack::FOUND(p))) => json!(["ok", p.get_content_count().into_u64()]),
        };
        o.put(format!("c.pack.{id}"), v);
    }
    for (i, a) in q["addrs"].as_array().unwrap().iter().enumerate() {
        // the size is part of the structure, the bytes are not
        let s = match cont.get_bytes(addr_of(a)) {
            Err(e) => err(&e),
            Ok(None) => json!(["nopack"]),
            Ok(Some(MayMissPack::MISSING(p))) => crate::man::missing(&p),
            Ok(Some(MayMissPack::FOUND(None))) => json!(["nocontent"]),
            Ok(Some(MayMissPack::FOUND(Some(r)))) => {
                let n = r.size().into_u64();
                let half = jbk::Offset::from(n / 2);
                let _ = r.get_slice(half, ((n - n / 2) as usize).min(4096)).map(|s| s.len());
                json!(["ok", n])
            }
        };
        o.put(format!("c.size.{i}"), s.clone());
        if s[0] == "ok" {
            let d = get_bytes(&cont, addr_of(a));
            if d[0] == "ok" && d[1][0] != s[1] {
                o.put(format!("c.size.{i}"), json!(["got", d[1][0]]));
            }
            o.put(format!("d.{i}"), d);
        } else {
            o.failed.push(format!("d.{i}"));
        }
    }
    o.all = chk(cont.check());
    o
}

fn write_over(dir: &Path, name: &str, data: &[u8]) {
    // never truncates a file which may still be mapped
    let tmp = dir.join(".tmp");
    std::fs::write(&tmp, data).unwrap();
    std::fs::rename(&tmp, dir.join(name)).unwrap();
}

/// One alteration on the bytes of a file.
fn alter(d: &mut Vec<u8>, a: &J) {
    if let Some(x) = a["x"].as_array() {
        d[x[0].as_u64().unwrap() as usize] ^= x[1].as_u64().unwrap() as u8;
    }
    if let Some(es) = a["w"].as_array() {
        for e in es {
            let p = e[0].as_u64().unwrap() as usize;
            let b = bytes_of(&e[1]);
            d[p..p + b.len()].copy_from_slice(&b);
        }
    }
    if let Some(n) = a["trunc"].as_u64() {
        d.truncate(n as usize);
    }
    if !a["head"].is_null() {
        let mut x = gen(&a["head"]);
        x.extend_from_slice(d);
        *d = x;
    }
    if !a["app"].is_null() {
        d.extend_from_slice(&gen(&a["app"]));
    }
    if !a["all"].is_null() {
        *d = gen(&a["all"]);
    }
    if !a["bytes"].is_null() {
        *d = bytes_of(&a["bytes"]);
    }
}

/// {"dir","files":[names],"entry","packs":[[file,uuid,kind]],"q":{idx,ids,addrs},"alts":[{"f":file,..}],"range":[f,a,b,mask]}
/// -> {"base": result, "groups": [[result, [index of alteration..]]..]}
pub fn damage(c: &J) -> J {
    let names: Vec<&str> = c["files"].as_array().unwrap().iter().map(|f| f.as_str().unwrap()).collect();
    let src = Path::new(c["dir"].as_str().unwrap());
    let dir = crate::mk::scratch("dmg");
    std::fs::create_dir(&dir).unwrap();
    let orig: Vec<Vec<u8>> = names.iter().map(|n| std::fs::read(src.join(n)).unwrap()).collect();
    for (n, d) in names.iter().zip(&orig) {
        write_over(&dir, n, d);
    }
    let base = observe(&dir, c);
    let mut alts: Vec<J> = c["alts"].as_array().cloned().unwrap_or_default();
    if let Some(r) = c["range"].as_array() {
        for p in r[1].as_u64().unwrap()..r[2].as_u64().unwrap() {
            alts.push(json!({"f": r[0], "x": [p, r[3]]}));
        }
    }
    if let Some(r) = c["truncs"].as_array() {
        for p in r[1].as_u64().unwrap()..r[2].as_u64().unwrap() {
            alts.push(json!({"f": r[0], "trunc": p}));
        }
    }
    let mut groups: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (ai, a) in alts.iter().enumerate() {
        let mut touched = vec![];
        for a in a["many"].as_array().unwrap_or(&vec![a.clone()]) {
            let f = a["f"].as_u64().unwrap() as usize;
            let mut d = orig[f].clone();
            alter(&mut d, a);
            write_over(&dir, names[f], &d);
            touched.push(f);
        }
        let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observe(&dir, c))) {
            Ok(o) => o,
            Err(_) => Obs {
                vals: BTreeMap::new(),
                failed: vec!["".into()],
                all: "panic".into(),
                files: vec!["panic".into(); names.len()],
                packs: vec!["panic".into(); base.packs.len()],
            },
        };
        let mut diff = vec![];
        let mut cdiff = vec![];
        for k in base.vals.keys().chain(o.vals.keys().filter(|k| !base.vals.contains_key(*k))) {
            let (b, g) = (base.vals.get(k), o.vals.get(k));
            if b == g || o.failed.iter().any(|f| k.starts_with(f.as_str())) {
                continue;
            }
            if g.map(is_err).unwrap_or(false) {
                continue;
            }
            let of = k.split_once('.').filter(|(a, _)| *a == "d" || a.starts_with('w')).map(|(_, i)| i.parse::<usize>().unwrap());
            match of {
                Some(i) => {
                    if !cdiff.contains(&i) {
                        cdiff.push(i)
                    }
                }
                None => {
                    if diff.len() < 3 {
                        diff.push(k.clone())
                    }
                }
            }
        }
        cdiff.sort();
        let res = json!({"all": o.all, "files": o.files, "packs": o.packs, "diff": diff, "cdiff": cdiff});
        groups.entry(res.to_string()).or_default().push(ai);
        for f in touched {
            write_over(&dir, names[f], &orig[f]);
        }
    }
    if let Some(ms) = c["linger"].as_u64() {
        std::thread::sleep(std::time::Duration::from_millis(ms));
    }
    let _ = std::fs::remove_dir_all(&dir);
    let g: Vec<J> = groups.iter().map(|(k, v)| json!([serde_json::from_str::<J>(k).unwrap(), v])).collect();
    json!({"base": {"all": base.all, "files": base.files, "packs": base.packs, "failed": base.failed.len(), "keys": base.vals.len()}, "groups": g})
}


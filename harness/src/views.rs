//! Sequences of operations on the views of a content (spec/Views.tla).
use crate::gen::gen;
use jubako as jbk;
use jbk::reader::{ByteRegion, ByteSlice, ByteStream};
use serde_json::{json, Value as J};
use std::io::Read;

enum View {
    R(&'static ByteRegion),
    S(ByteSlice<'static>),
    T(ByteStream),
}

fn told(vs: &[View]) -> J {
    json!(vs
        .iter()
        .map(|v| match v {
            View::R(r) => json!([r.size().into_u64()]),
            View::S(s) => json!([s.size().into_u64()]),
            View::T(t) => json!([t.size(), t.size_left(), t.offset()]),
        })
        .collect::<Vec<_>>())
}

/// All the positions of `what` in `data`.
fn positions(data: &[u8], what: &[u8]) -> Vec<usize> {
    if what.is_empty() || what.len() > data.len() {
        return vec![];
    }
    (0..=data.len() - what.len()).filter(|&p| data[p] == what[0] && &data[p..p + what.len()] == what).take(2000).collect()
}

fn region(r: ByteRegion) -> View {
    View::R(Box::leak(Box::new(r)))
}

fn seq(first: ByteRegion, data: &[u8], ops: &[J]) -> J {
    let mut vs = vec![region(first)];
    let start = told(&vs);
    let mut res = vec![];
    for o in ops {
        let h = o["h"].as_u64().unwrap() as usize - 1;
        let (off, size) = (o["o"].as_u64().unwrap(), o["s"].as_u64().unwrap());
        let mut got: Option<Vec<u8>> = None;
        let mut ok = true;
        let new = match (o["op"].as_str().unwrap(), &mut vs[h]) {
            ("cut", View::R(r)) => Some(View::S(r.cut(off.into(), size.into()))),
            ("cut", View::S(s)) => Some(View::S(s.cut(off.into(), size.into()))),
            ("as_slice", View::R(r)) => Some(View::S(r.as_slice())),
            ("to_region", View::S(s)) => Some(region(ByteRegion::from(s.clone()))),
            ("stream", View::R(r)) => Some(View::T(r.stream())),
            ("stream", View::S(s)) => Some(View::T(s.stream())),
            ("into_stream", View::R(r)) => Some(View::T(ByteStream::from(r.clone()))),
            ("get", View::R(r)) => {
                match r.get_slice(off.into(), size as usize) {
                    Ok(b) => got = Some(b.to_vec()),
                    Err(_) => ok = false,
                }
                None
            }
            ("get", View::S(s)) => {
                match s.get_slice(off.into(), size as usize) {
                    Ok(b) => got = Some(b.to_vec()),
                    Err(_) => ok = false,
                }
                None
            }
            ("read", View::T(t)) => {
                let mut b = vec![0xEEu8; size as usize];
                match t.read(&mut b) {
                    Ok(n) => {
                        // bytes past the returned length are not touched
                        ok = n <= b.len() && b[n..].iter().all(|x| *x == 0xEE);
                        b.truncate(n);
                        got = Some(b);
                    }
                    Err(_) => ok = false,
                }
                None
            }
            ("toend", View::T(t)) => {
                let mut b = vec![];
                match t.read_to_end(&mut b) {
                    Ok(n) => {
                        ok = n == b.len();
                        got = Some(b);
                    }
                    Err(_) => ok = false,
                }
                None
            }
            (x, _) => panic!("operation {x}"),
        };
        if let Some(v) = new {
            vs.push(v);
        }
        let g = got.unwrap_or_default();
        res.push(json!({"ok": ok, "told": told(&vs), "got": g.len(), "at": positions(data, &g)}));
    }
    json!({"ok": true, "first": start, "res": res})
}

fn pack(path: &str, src: &str) -> jbk::Result<jbk::reader::ContentPack> {
    let reader: jbk::Reader = match src {
        "file" => jbk::Reader::from(jbk::FileSource::open(path)?),
        "vec" => jbk::Reader::from(std::fs::read(path).unwrap()),
        _ => {
            let f = std::fs::File::open(path).unwrap();
            jbk::Reader::from(unsafe { memmap2::Mmap::map(&f).unwrap() })
        }
    };
    jbk::reader::ContentPack::new(reader)
}

/// {"path","src","content"|"addr","g","seqs":[[op]]} -> one result per sequence
pub fn views(c: &J) -> J {
    let data = gen(&c["g"]);
    let path = c["path"].as_str().unwrap();
    let src = c["src"].as_str().unwrap();
    let mut out = vec![];
    for s in c["seqs"].as_array().unwrap() {
        let ops = s.as_array().unwrap();
        let get = || -> Option<ByteRegion> {
            if src == "container" {
                let c2 = jbk::reader::Container::new(path).ok()?;
                match c2.get_bytes(crate::mk::addr_of(&c["addr"])).ok()? {
                    Some(jbk::reader::MayMissPack::FOUND(Some(r))) => Some(r),
                    _ => None,
                }
            } else {
                let p = pack(path, src).ok()?;
                let a = crate::mk::addr_of(&c["addr"]);
                p.get_content(a.content_id).ok()?
            }
        };
        out.push(match get() {
            Some(r) => seq(r, &data, ops),
            None => json!({"ok": false, "first": [], "res": []}),
        });
    }
    json!(out)
}

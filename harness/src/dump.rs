//! Logical dumps through the public reader API.
use crate::gen::*;
use crate::mk::*;
use jubako as jbk;
use jbk::reader::builder::{AnyBuilder, PropertyBuilderTrait};
use jbk::reader::{Container, EntryTrait, MayMissPack, Range, RawValue};
use serde_json::{json, Map, Value as J};
use std::io::Read;
use std::sync::Arc;

pub fn ek(e: &jbk::Error) -> &'static str {
    match &**e {
        jbk::ErrorKind::Io(_) => "io",
        jbk::ErrorKind::Corrupted(_) => "corrupted",
        jbk::ErrorKind::Format(_) => "format",
        jbk::ErrorKind::Version(_) => "version",
        jbk::ErrorKind::NotAJbk => "notajbk",
        jbk::ErrorKind::MissingFeature(_) => "feature",
    }
}

pub fn err(e: &jbk::Error) -> J {
    json!(["E", ek(e)])
}

pub fn raw(v: &RawValue) -> J {
    match v {
        RawValue::Content(c) => {
            json!(["c", c.pack_id.into_u64(), c.content_id.into_u32().to_le_bytes().to_vec()])
        }
        RawValue::U8(_) | RawValue::U16(_) | RawValue::U32(_) | RawValue::U64(_) => {
            json!(["u", v.as_unsigned().to_le_bytes().to_vec()])
        }
        RawValue::I8(_) | RawValue::I16(_) | RawValue::I32(_) | RawValue::I64(_) => {
            json!(["s", v.as_signed().to_le_bytes().to_vec()])
        }
        RawValue::Array(_) => match v.as_vec() {
            Ok(b) => arr_obs(&b),
            Err(e) => err(&e),
        },
    }
}

/// Same value through `RawValue::get()`.
pub fn raw_get(v: &RawValue) -> J {
    match v.get() {
        Err(e) => err(&e),
        Ok(jbk::Value::Content(c)) => {
            json!(["c", c.pack_id.into_u64(), c.content_id.into_u32().to_le_bytes().to_vec()])
        }
        Ok(jbk::Value::Unsigned(u)) => json!(["u", u.to_le_bytes().to_vec()]),
        Ok(jbk::Value::Signed(u)) => json!(["s", u.to_le_bytes().to_vec()]),
        Ok(jbk::Value::Array(b)) => arr_obs(&b),
        Ok(_) => json!(["?"]),
    }
}

pub fn region_obs(r: &jbk::reader::ByteRegion) -> J {
    let mut v = Vec::new();
    match r.stream().read_to_end(&mut v) {
        Ok(_) => obs(&v),
        Err(_) => json!(["E", "read"]),
    }
}

/// ["ok", obs] | ["nocontent"] | ["nopack"] | ["missing", uuid, loc, id] | ["E", kind]
pub fn get_bytes(c: &Container, a: jbk::ContentAddress) -> J {
    match c.get_bytes(a) {
        Err(e) => err(&e),
        Ok(None) => json!(["nopack"]),
        Ok(Some(MayMissPack::MISSING(p))) => {
            crate::man::missing(&p)
        }
        Ok(Some(MayMissPack::FOUND(None))) => json!(["nocontent"]),
        Ok(Some(MayMissPack::FOUND(Some(r)))) => {
            let o = region_obs(&r);
            if o[0] == "E" {
                o
            } else if r.size().into_u64() != o[0].as_u64().unwrap() {
                json!(["sizemismatch"])
            } else {
                json!(["ok", o])
            }
        }
    }
}

/// An entry which cannot be read, with the shape of an entry.
fn bad_entry(k: &str) -> J {
    json!({"v": -9, "vn": k, "vals": {}})
}

/// An index which cannot be read, with the shape of an index.
fn bad_index(k: &str) -> J {
    json!({"err": k, "count": -2, "off": -2, "entries": [], "past": ["none"], "past2": ["none"]})
}

pub fn i31(n: u32) -> i64 {
    if n > 0x7fff_ffff {
        -1
    } else {
        n as i64
    }
}

pub fn entry_json<E: EntryTrait>(e: &E, store: &jbk::reader::EntryStore) -> J {
    let layout = store.layout();
    let mut vals = Map::new();
    let mut put = |n: &str| {
        let v = match e.get_value(n) {
            Err(er) => err(&er),
            Ok(None) => json!(["none"]),
            Ok(Some(r)) => {
                let a = raw(&r);
                if a == raw_get(&r) {
                    a
                } else {
                    json!(["disagree"])
                }
            }
        };
        vals.insert(n.to_string(), v);
    };
    for (n, _) in layout.common.iter() {
        put(n.as_str());
    }
    let mut variant = -1i64;
    let mut vname = J::Null;
    if let Some(vp) = &layout.variant_part {
        match e.get_variant_id() {
            Err(er) => return bad_entry(ek(&er)),
            Ok(None) => variant = -2,
            Ok(Some(id)) => {
                variant = id.into_u64() as i64;
                vname = vp
                    .names
                    .iter()
                    .find(|(_, i)| **i as i64 == variant)
                    .map(|(n, _)| json!(n.as_str()))
                    .unwrap_or(J::Null);
                if let Some(p) = vp.variants.get(variant as usize) {
                    for (n, _) in p.iter() {
                        put(n.as_str());
                    }
                } else {
                    return bad_entry("badvariant");
                }
            }
        }
    }
    let vname = if vname.is_null() { json!("") } else { vname };
    json!({"v": variant, "vn": vname, "vals": vals})
}

/// What gives indexes and entries: a container, or a directory pack alone.
pub trait Dirs {
    fn idx(&self, name: &str) -> jbk::Result<Option<jbk::reader::Index>>;
    fn store(&self, i: &jbk::reader::Index) -> jbk::Result<jbk::reader::EntryStore>;
    fn vs(&self) -> &Arc<jbk::reader::ValueStorage>;
}

impl Dirs for Container {
    fn idx(&self, name: &str) -> jbk::Result<Option<jbk::reader::Index>> {
        self.get_index_for_name(name)
    }
    fn store(&self, i: &jbk::reader::Index) -> jbk::Result<jbk::reader::EntryStore> {
        i.get_store(self.get_entry_storage())
    }
    fn vs(&self) -> &Arc<jbk::reader::ValueStorage> {
        self.get_value_storage()
    }
}

type StoreOf = Box<dyn Fn(&jbk::reader::Index) -> jbk::Result<jbk::reader::EntryStore> + Send + Sync>;

pub struct DirAlone {
    pub p: Arc<jbk::reader::DirectoryPack>,
    s: StoreOf,
    v: Arc<jbk::reader::ValueStorage>,
}

impl DirAlone {
    pub fn new(p: jbk::reader::DirectoryPack) -> Self {
        let p = Arc::new(p);
        let (e, v) = (p.create_entry_storage(), p.create_value_storage());
        Self { p, s: Box::new(move |i| i.get_store(&e)), v }
    }
}

impl Dirs for DirAlone {
    fn idx(&self, name: &str) -> jbk::Result<Option<jbk::reader::Index>> {
        self.p.get_index_from_name(name)
    }
    fn store(&self, i: &jbk::reader::Index) -> jbk::Result<jbk::reader::EntryStore> {
        (self.s)(i)
    }
    fn vs(&self) -> &Arc<jbk::reader::ValueStorage> {
        &self.v
    }
}

/// Dump one index: {"count", "entries": [..], "past": ..}
pub fn index<D: Dirs>(c: &D, name: &str, limit: usize) -> J {
    let idx = match c.idx(name) {
        Err(e) => return bad_index(ek(&e)),
        Ok(None) => return bad_index("none"),
        Ok(Some(i)) => i,
    };
    let store = match c.store(&idx) {
        Err(e) => return bad_index(ek(&e)),
        Ok(s) => s,
    };
    let builder = match AnyBuilder::new(Arc::clone(&store), c.vs().as_ref()) {
        Err(e) => return bad_index(ek(&e)),
        Ok(b) => b,
    };
    let n = idx.size().into_u32();
    let mut entries = vec![];
    for i in 0..n.min(limit as u32) {
        entries.push(match idx.get_entry(&builder, jbk::EntryIdx::from(i)) {
            Err(e) => bad_entry(ek(&e)),
            Ok(None) => bad_entry("none"),
            Ok(Some(e)) => entry_json(&e, &store),
        });
    }
    let past = match idx.get_entry(&builder, jbk::EntryIdx::from(n)) {
        Err(e) => err(&e),
        Ok(None) => json!(["none"]),
        Ok(Some(_)) => json!(["some"]),
    };
    let past2 = match idx.get_entry(&builder, jbk::EntryIdx::from(n.saturating_add(7))) {
        Err(e) => err(&e),
        Ok(None) => json!(["none"]),
        Ok(Some(_)) => json!(["some"]),
    };
    json!({"err": "", "count": i31(n), "off": i31(idx.offset().into_u32()), "entries": entries, "past": past, "past2": past2})
}

enum B {
    U(jbk::reader::builder::IntProperty),
    S(jbk::reader::builder::SignedProperty),
    A(jbk::reader::builder::ArrayProperty),
    C(jbk::reader::builder::ContentProperty),
    /// the builder cannot be made
    Failed(J),
}

macro_rules! typed_builder {
    ($p:expr, $vs:expr) => {{
        let p = $p;
        let vs = $vs.as_ref();
        match (
            p.as_builder::<jbk::reader::builder::IntProperty, _>(vs),
            p.as_builder::<jbk::reader::builder::SignedProperty, _>(vs),
            p.as_builder::<jbk::reader::builder::ArrayProperty, _>(vs),
            p.as_builder::<jbk::reader::builder::ContentProperty, _>(vs),
        ) {
            (Ok(Some(x)), ..) => Some(B::U(x)),
            (_, Ok(Some(x)), ..) => Some(B::S(x)),
            (_, _, Ok(Some(x)), _) => Some(B::A(x)),
            (_, _, _, Ok(Some(x))) => Some(B::C(x)),
            (Err(e), ..) | (_, Err(e), ..) | (_, _, Err(e), _) | (_, _, _, Err(e)) => Some(B::Failed(err(&e))),
            _ => None,
        }
    }};
}

fn typed_val(b: &B, s: &jbk::reader::ByteSlice) -> J {
    match b {
        B::Failed(e) => e.clone(),
        B::U(p) => match p.create(s) {
            Ok(v) => json!(["u", v.to_le_bytes().to_vec()]),
            Err(e) => err(&e),
        },
        B::S(p) => match p.create(s) {
            Ok(v) => json!(["s", v.to_le_bytes().to_vec()]),
            Err(e) => err(&e),
        },
        B::A(p) => match p.create(s) {
            Ok(a) => {
                let mut v = jbk::SmallBytes::new();
                match a.resolve_to_vec(&mut v) {
                    Ok(()) => {
                        if let Some(n) = a.size() {
                            if n != v.len() {
                                return json!(["sizemismatch"]);
                            }
                        }
                        arr_obs(&v)
                    }
                    Err(e) => err(&e),
                }
            }
            Err(e) => err(&e),
        },
        B::C(p) => match p.create(s) {
            Ok(c) => json!(["c", c.pack_id.into_u64(), c.content_id.into_u32().to_le_bytes().to_vec()]),
            Err(e) => err(&e),
        },
    }
}

/// Typed access: reads every property with the dedicated builders; same shape as `index().entries`.
pub fn index_typed<D: Dirs>(c: &D, name: &str, limit: usize) -> J {
    let idx = match c.idx(name) {
        Err(e) => return json!([bad_entry(ek(&e))]),
        Ok(None) => return json!([bad_entry("none")]),
        Ok(Some(i)) => i,
    };
    let store = match c.store(&idx) {
        Err(e) => return json!([bad_entry(ek(&e))]),
        Ok(s) => s,
    };
    let vs = c.vs();
    let layout = store.layout();
    let common: Vec<_> = layout.common.iter().map(|(n, p)| (n.as_str().to_string(), typed_builder!(p, vs))).collect();
    let variants: Vec<Vec<_>> = layout
        .variant_part
        .as_ref()
        .map(|vp| {
            vp.variants
                .iter()
                .map(|v| v.iter().map(|(n, p)| (n.as_str().to_string(), typed_builder!(p, vs))).collect())
                .collect()
        })
        .unwrap_or_default();
    let vid = layout.variant_part.as_ref().map(|v| v.as_builder());
    let mut out = vec![];
    for i in 0..idx.size().into_u32().min(limit as u32) {
        let pos = idx.offset().into_u32() + i;
        let s = match store.get_entry_reader(jbk::EntryIdx::from(pos)) {
            None => {
                out.push(bad_entry("none"));
                continue;
            }
            Some(s) => s,
        };
        let mut vals = Map::new();
        for (n, b) in &common {
            vals.insert(n.clone(), b.as_ref().map(|b| typed_val(b, &s)).unwrap_or(json!(["nobuilder"])));
        }
        let mut variant = -1i64;
        let mut vname = json!("");
        if let Some(vb) = &vid {
            match vb.create(&s) {
                Err(e) => {
                    out.push(bad_entry(ek(&e)));
                    continue;
                }
                Ok(v) => {
                    variant = v.into_u64() as i64;
                    if let Some(n) = layout.variant_part.as_ref().unwrap().names.iter().find(|(_, i)| **i as i64 == variant) {
                        vname = json!(n.0.as_str());
                    }
                    for (n, b) in variants.get(variant as usize).map(|v| &v[..]).unwrap_or(&[]) {
                        vals.insert(n.clone(), b.as_ref().map(|b| typed_val(b, &s)).unwrap_or(json!(["nobuilder"])));
                    }
                }
            }
        }
        out.push(json!({"v": variant, "vn": vname, "vals": vals}));
    }
    J::Array(out)
}

struct Cmp<'a, C> {
    inner: &'a C,
    ordered: bool,
}

impl<C: jbk::reader::CompareTrait> jbk::reader::CompareTrait for Cmp<'_, C> {
    fn ordered(&self) -> bool {
        self.ordered
    }
    fn compare_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<std::cmp::Ordering> {
        self.inner.compare_entry(idx)
    }
}

/// Searches in an index: queries [{"k":[names],"vals":[values]}] -> [{"lin": n|-1|-2, "bin": .., "def": ..}]
pub fn find(c: &Container, name: &str, queries: &J) -> J {
    let idx = match c.get_index_for_name(name) {
        Ok(Some(i)) => i,
        _ => return json!([]),
    };
    let store = match idx.get_store(c.get_entry_storage()) {
        Err(_) => return json!([]),
        Ok(s) => s,
    };
    let builder = match AnyBuilder::new(Arc::clone(&store), c.get_value_storage().as_ref()) {
        Err(_) => return json!([]),
        Ok(b) => b,
    };
    let mut out = vec![];
    for q in queries.as_array().unwrap() {
        let names: Vec<String> = q["k"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let vals: Vec<jbk::Value> = q["vals"]
            .as_array()
            .unwrap()
            .iter()
            .map(|v| match v[0].as_str().unwrap() {
                "u" => jbk::Value::Unsigned(u64::from_le_bytes(le8(&v[1]))),
                "s" => jbk::Value::Signed(i64::from_le_bytes(le8(&v[1]))),
                _ => jbk::Value::Array(bytes_of(&v[1]).as_slice().into()),
            })
            .collect();
        let cmp = if names.len() == 1 {
            builder.new_property_compare(names[0].clone(), vals.into_iter().next().unwrap())
        } else {
            builder.new_multiple_property_compare(names, vals)
        };
        let r = |x: jbk::Result<Option<jbk::EntryIdx>>| match x {
            Err(_) => -2i64,
            Ok(None) => -1,
            Ok(Some(i)) => i31(i.into_u32()),
        };
        out.push(json!({
            "lin": r(idx.find(&Cmp { inner: &cmp, ordered: false })),
            "bin": r(idx.find(&Cmp { inner: &cmp, ordered: true })),
            "def": r(idx.find(&cmp)),
        }));
    }
    J::Array(out)
}

pub fn packinfo(p: &jbk::reader::PackInfo) -> J {
    json!({"uuid": p.uuid.to_string(), "size": p.pack_size.into_u64(), "id": p.pack_id.into_u64(),
           "kind": format!("{:?}", p.pack_kind), "group": p.pack_group, "free": p.free_data_id.into_u64(),
           "loc": p.pack_location.as_str()})
}

/// Full dump of a container. `q` = {"idx":[names], "addrs":[[pack,[4]]], "limit":n}
pub fn dump(path: &str, q: &J) -> J {
    let c = match Container::new(path) {
        Ok(c) => c,
        Err(e) => return err(&e),
    };
    dump_c(&c, q)
}

pub fn dump_c(c: &Container, q: &J) -> J {
    let limit = q["limit"].as_u64().unwrap_or(1 << 20) as usize;
    let mut idx = Map::new();
    let mut typed = Map::new();
    if let Some(names) = q["idx"].as_array() {
        for n in names {
            let n = n.as_str().unwrap();
            idx.insert(n.to_string(), index(c, n, limit));
            if q["typed"].as_bool().unwrap_or(false) {
                typed.insert(n.to_string(), index_typed(c, n, limit));
            }
        }
    }
    let mut contents = vec![];
    if let Some(a) = q["addrs"].as_array() {
        for a in a {
            contents.push(get_bytes(c, addr_of(a)));
        }
    }
    let mut packs = vec![];
    for p in 0..20u16 {
        packs.push(match c.get_pack(p.into()) {
            Err(e) => err(&e),
            Ok(None) => json!(["nopack"]),
            Ok(Some(MayMissPack::MISSING(p))) => crate::man::missing(&p),
            Ok(Some(MayMissPack::FOUND(p))) => json!(["ok", p.get_content_count().into_u64()]),
        });
    }
    let check = if q["check"].as_bool().unwrap_or(true) {
        match c.check() {
            Ok(b) => json!(if b { "ok" } else { "bad" }),
            Err(e) => json!(format!("E{}", ek(&e))),
        }
    } else {
        json!("skip")
    };
    let mut finds = Map::new();
    if let Some(m) = q["finds"].as_object() {
        for (n, qs) in m {
            finds.insert(n.clone(), find(c, n, qs));
        }
    }
    json!({"finds": finds, "uuid": c.uuid().to_string(), "npacks": c.pack_count().into_u64(), "idx": idx, "typed": typed, "contents": contents,
           "packs": packs, "check": check})
}

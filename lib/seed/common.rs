// Shared by the demonstrations: small containers made and read through the public API.
#![allow(dead_code)]
use jubako as jbk;
use jbk::creator::schema::{CommonProperties, Property, Schema, VariantProperties};
pub use jbk::creator::{BasicCreator, BasicEntry, CompHint, Compression, ConcatMode, ContentAdder, DirectoryPackCreator, EntryStore, EntryStoreTrait, StoreHandle};
pub use jbk::reader::{builder::AnyBuilder, Container, EntryTrait, MayMissPack, Range};
pub use std::collections::HashMap;
pub use std::io::Read;
pub use std::sync::Arc;

pub const VENDOR: jbk::VendorId = jbk::VendorId::new([1, 2, 3, 4]);
pub type Row = HashMap<&'static str, jbk::Value>;
pub type Store = EntryStore<&'static str, &'static str, BasicEntry<&'static str, &'static str>>;

pub fn noise(len: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..len).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect()
}
pub fn text(len: usize, seed: u64) -> Vec<u8> {
    let n = noise(len, seed);
    n.iter().map(|b| b"etaoin shrdlu\n"[(*b as usize) % 14]).collect()
}

pub struct Dir { pub vs: Vec<StoreHandle>, pub stores: Vec<Box<Store>>, pub idx: Vec<(&'static str, usize, u32, u32)> }
impl EntryStoreTrait for Dir {
    fn finalize(self: Box<Self>, dp: &mut DirectoryPackCreator) {
        for v in self.vs { dp.add_value_store(v); }
        let ids: Vec<_> = self.stores.into_iter().map(|s| dp.add_entry_store(s)).collect();
        for (n, s, c, o) in self.idx {
            dp.create_index(n, Default::default(), 0.into(), ids[s], c.into(), jbk::EntryIdx::from(o).into());
        }
    }
}
pub fn no_dir() -> Dir { Dir { vs: vec![], stores: vec![], idx: vec![] } }

pub fn create(path: &str, mode: ConcatMode, comp: Compression, contents: Vec<(Vec<u8>, CompHint)>, dir: Dir) -> Vec<jbk::ContentAddress> {
    let mut c = BasicCreator::new(path, mode, VENDOR, comp, Arc::new(())).unwrap();
    let a = contents.into_iter().map(|(d, h)| c.add_content(Box::new(std::io::Cursor::new(d)), h).unwrap()).collect();
    c.finalize(Box::new(dir), vec![]).unwrap();
    a
}

/// The bytes at an address; panics when there are none.
pub fn bytes(c: &Container, a: jbk::ContentAddress) -> Vec<u8> {
    let mut v = vec![];
    match c.get_bytes(a).unwrap().unwrap() {
        MayMissPack::FOUND(Some(r)) => { r.stream().read_to_end(&mut v).unwrap(); }
        MayMissPack::FOUND(None) => panic!("no such content"),
        MayMissPack::MISSING(_) => panic!("pack missing"),
    };
    v
}

/// Value of property `p` of every entry of index `name`.
pub fn column(c: &Container, name: &str, p: &str) -> Vec<jbk::Value> {
    let i = c.get_index_for_name(name).unwrap().unwrap();
    let store = i.get_store(c.get_entry_storage()).unwrap();
    let b = AnyBuilder::new(Arc::clone(&store), c.get_value_storage().as_ref()).unwrap();
    (0..i.size().into_u32()).map(|k| i.get_entry(&b, k.into()).unwrap().unwrap().get_value(p).unwrap().unwrap().get().unwrap()).collect()
}
pub fn uints(c: &Container, name: &str, p: &str) -> Vec<u64> {
    column(c, name, p).into_iter().map(|v| match v { jbk::Value::Unsigned(u) => u, x => panic!("{x:?}") }).collect()
}
pub fn arrays(c: &Container, name: &str, p: &str) -> Vec<Vec<u8>> {
    column(c, name, p).into_iter().map(|v| match v { jbk::Value::Array(u) => u.to_vec(), x => panic!("{x:?}") }).collect()
}

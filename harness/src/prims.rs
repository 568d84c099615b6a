//! Primitives for the format decoder in TLA+: blake3 and decompression, with the codec crates directly.
//! The positions come from the caller; nothing here uses the library.
use crate::gen;
use serde_json::{json, Value as J};
use std::io::Read;

fn decompress(alg: u64, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    match alg {
        0 => out.extend_from_slice(data),
        1 => {
            lz4::Decoder::new(data).map_err(|e| e.to_string())?.read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        2 => {
            xz2::read::XzDecoder::new_stream(data, xz2::stream::Stream::new_lzma_decoder(u64::MAX).unwrap())
                .read_to_end(&mut out)
                .map_err(|e| e.to_string())?;
        }
        3 => {
            zstd::Decoder::new(data).map_err(|e| e.to_string())?.read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        _ => return Err("alg".into()),
    }
    Ok(out)
}

/// {"path", "b3": [{"pos","n","mask":[[a,e]..]}], "clusters": [{"pos","n","alg","cuts":[..]}]}
pub fn prims(c: &J) -> J {
    let f = std::fs::read(c["path"].as_str().unwrap()).unwrap();
    let at = |j: &J| {
        let p = j["pos"].as_u64().unwrap() as usize;
        let n = j["n"].as_u64().unwrap() as usize;
        f.get(p..p + n)
    };
    let b3: Vec<J> = c["b3"]
        .as_array()
        .unwrap()
        .iter()
        .map(|j| match at(j) {
            None => json!([]),
            Some(d) => {
                let mut d = d.to_vec();
                for m in j["mask"].as_array().unwrap() {
                    let (a, e) = (m[0].as_u64().unwrap() as usize, m[1].as_u64().unwrap() as usize);
                    for x in d.iter_mut().take(e).skip(a) {
                        *x = 0;
                    }
                }
                gen::u8s(blake3::hash(&d).as_bytes())
            }
        })
        .collect();
    let cl: Vec<J> = c["clusters"]
        .as_array()
        .unwrap()
        .iter()
        .map(|j| match at(j).ok_or("range".to_string()).and_then(|d| decompress(j["alg"].as_u64().unwrap(), d)) {
            Err(e) => json!({"len": -1, "why": e, "parts": []}),
            Ok(d) => {
                let cuts: Vec<usize> = j["cuts"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let parts: Vec<J> = cuts
                    .windows(2)
                    .map(|w| match d.get(w[0]..w[1]) {
                        Some(x) => gen::obs(x),
                        None => json!([-1]),
                    })
                    .collect();
                json!({"len": d.len(), "why": "", "parts": parts})
            }
        })
        .collect();
    json!({"b3": b3, "clusters": cl, "size": f.len()})
}

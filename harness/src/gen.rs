//! Deterministic content generator and content observation (independent of the library).
use serde_json::{json, Value as J};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

const WORDS: &[&str] = &[
    "lorem ", "ipsum ", "dolor ", "sit ", "amet ", "jubako ", "cluster ", "pack ", "entry ", "store ", "\n", "value ",
];

/// g = [kind, len, seed]
pub fn gen(g: &J) -> Vec<u8> {
    if let Some(h) = g.get("hex") {
        let s = h.as_str().unwrap();
        return (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    }
    let kind = g[0].as_str().unwrap();
    let len = g[1].as_u64().unwrap() as usize;
    let seed = g[2].as_u64().unwrap_or(0);
    gen_parts(kind, len, seed)
}

pub fn gen_parts(kind: &str, len: usize, seed: u64) -> Vec<u8> {
    let mut rng = Rng::new(seed);
    let mut v = Vec::with_capacity(len + 16);
    match kind {
        "z" => v.resize(len, 0),
        "c" => v.resize(len, seed as u8),
        "r" => {
            while v.len() < len {
                v.extend_from_slice(&rng.next().to_le_bytes());
            }
        }
        "t" => {
            v.extend_from_slice(format!("{seed:08x} ").as_bytes());
            while v.len() < len {
                v.extend_from_slice(WORDS[rng.below(WORDS.len() as u64) as usize].as_bytes());
            }
        }
        // 64 symbols, uniform: entropy just about 6 bits
        "e" => {
            while v.len() < len {
                v.push((rng.next() & 63) as u8);
            }
        }
        // 128 symbols
        "h" => {
            while v.len() < len {
                v.push((rng.next() & 127) as u8);
            }
        }
        // counter: position dependent, every offset distinguishable
        "p" => {
            let mut i = 0u32;
            while v.len() < len {
                v.extend_from_slice(&(i.wrapping_mul(2654435761).wrapping_add(seed as u32)).to_le_bytes());
                i += 1;
            }
        }
        // text head then random
        "x" => {
            while v.len() < len.min(8192) {
                v.extend_from_slice(WORDS[rng.below(WORDS.len() as u64) as usize].as_bytes());
            }
            while v.len() < len {
                v.extend_from_slice(&rng.next().to_le_bytes());
            }
        }
        _ => panic!("gen kind {kind}"),
    }
    v.truncate(len);
    v
}

/// [len, h0, h1, h2, h3] with 16-bit hash parts
pub fn obs(data: &[u8]) -> J {
    let h = blake3::hash(data);
    let b = h.as_bytes();
    let p = |i: usize| (b[2 * i] as u32) << 8 | b[2 * i + 1] as u32;
    json!([data.len(), p(0), p(1), p(2), p(3)])
}

pub fn u8s(b: &[u8]) -> J {
    J::Array(b.iter().map(|x| json!(*x)).collect())
}

pub fn bytes_of(j: &J) -> Vec<u8> {
    j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

pub fn le8(j: &J) -> [u8; 8] {
    bytes_of(j).try_into().unwrap()
}

/// Array values: short ones verbatim, longer ones as an observation.
pub fn arr_obs(data: &[u8]) -> J {
    if data.len() <= 1500 {
        json!(["a", u8s(data)])
    } else {
        json!(["A", obs(data)])
    }
}

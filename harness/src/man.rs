//! Manifests: rewriting locations and reading descriptions.
use crate::dump::{ek, err};
use crate::gen::u8s;
use jubako as jbk;
use jbk::Pack;
use serde_json::{json, Value as J};


fn info(p: &jbk::reader::PackInfo) -> J {
    json!({"uuid": u8s(p.uuid.as_bytes()), "id": p.pack_id.into_u64(), "kind": kind_byte(&format!("{:?}", p.pack_kind)), "group": p.pack_group,
           "size": p.pack_size.into_u64(), "loc": u8s(p.pack_location.as_str().as_bytes())})
}

/// The description given with a missing pack.
pub fn missing(p: &jbk::reader::PackInfo) -> J {
    json!(["missing", u8s(p.uuid.as_bytes()), p.pack_location.as_str(), p.pack_id.into_u64(), p.pack_size.into_u64(),
           kind_byte(&format!("{:?}", p.pack_kind)), p.pack_group])
}

/// {"files": [paths], "out": path} -> ["ok"] | ["E", kind]
pub fn concat(c: &J) -> J {
    let files: Vec<&str> = c["files"].as_array().unwrap().iter().map(|f| f.as_str().unwrap()).collect();
    match jbk::tools::concat(&files, c["out"].as_str().unwrap()) {
        Err(e) => err(&e),
        Ok(()) => json!(["ok"]),
    }
}

fn kind_byte(d: &str) -> u64 {
    match d {
        "Content" => 99,
        "Directory" => 100,
        "Manifest" => 109,
        "Container" => 67,
        _ => 0,
    }
}

/// {"path","uuid":[16],"loc":string} -> ["ok", kind, old] | ["none"] | ["E", kind]
pub fn setloc(c: &J) -> J {
    let u: [u8; 16] = crate::gen::bytes_of(&c["uuid"]).try_into().unwrap();
    let loc = String::from_utf8(crate::gen::bytes_of(&c["loc"])).unwrap();
    match jbk::tools::set_location(c["path"].as_str().unwrap(), uuid::Uuid::from_bytes(u), loc.as_str().into()) {
        Err(e) => err(&e),
        Ok(None) => json!(["none"]),
        Ok(Some((k, old))) => json!(["ok", kind_byte(&format!("{k:?}")), u8s(old.as_str().as_bytes())]),
    }
}

/// What the reader shows of the manifest of a file.
pub fn manifest(c: &J) -> J {
    let bad = |k: &str| json!({"count": -1, "infos": [], "check": k});
    let r = || -> jbk::Result<J> {
        let container = jbk::tools::open_pack(c["path"].as_str().unwrap())?;
        let r = match container.get_manifest_pack_reader()? {
            None => return Ok(bad("none")),
            Some(r) => r,
        };
        let m = jbk::reader::ManifestPack::new(r)?;
        let mut infos = vec![info(m.get_directory_pack_info())];
        for p in m.get_pack_infos() {
            infos.push(info(p));
            // the same through the other accessors
            let same = m.get_content_pack_info(p.pack_id).map(|q| info(q)) == Some(info(p))
                && m.get_content_pack_info_uuid(p.uuid).map(|q| info(q)) == Some(info(p));
            if !same {
                infos.push(json!("disagree"));
            }
        }
        let check = match m.check() {
            Ok(true) => "ok".to_string(),
            Ok(false) => "bad".to_string(),
            Err(e) => format!("E{}", ek(&e)),
        };
        Ok(json!({"count": m.pack_count().into_u64(), "infos": infos, "check": check}))
    };
    match r() {
        Ok(j) => j,
        Err(e) => bad(ek(&e)),
    }
}

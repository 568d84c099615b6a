use crate::{atomic, dmg, dump, gen, man, mk, prims, sync, views};
use serde_json::{json, Value as J};

pub fn run(c: &J) -> J {
    match c["op"].as_str().unwrap() {
        "dircase" => dircase(c),
        "build" => build(c),
        "dump" => dump::dump(c["path"].as_str().unwrap(), &c["q"]),
        "atomic" => atomic::atomic(c),
        "damage" => dmg::damage(c),
        "prims" => prims::prims(c),
        "setloc" => man::setloc(c),
        "views" => views::views(c),
        "sync" => sync::sync(c),
        "storm" => sync::storm(c),
        "cache" => sync::cache(c),
        "concat" => man::concat(c),
        "manifest" => man::manifest(c),
        "arrobs" => gen::arr_obs(&gen::gen(&c["g"])),
        "obs" => gen::obs(&gen::gen(&c["g"])),
        x => panic!("op {x}"),
    }
}

fn build(c: &J) -> J {
    match mk::container(&c["spec"]) {
        Ok(_) if c["quiet"].as_bool().unwrap_or(false) => json!({"ok": true}),
        Ok(b) => json!({"ok": true, "adds": b.adds, "handles": b.handles_json(), "prog": b.prog}),
        Err(e) => json!({"ok": false, "err": e}),
    }
}

/// Builds a container (failures and panics are outcomes), dumps it and removes it.
fn dircase(c: &J) -> J {
    let path = mk::scratch("dc.jbk");
    let mut spec = c["spec"].clone();
    spec["out"] = json!(path.to_str().unwrap());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mk::container(&spec)));
    let out = match r {
        Err(_) => json!({"built": false, "why": "panic"}),
        Ok(Err(e)) => json!({"built": false, "why": e}),
        Ok(Ok(b)) => {
            let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dump::dump(path.to_str().unwrap(), &c["q"])));
            match d {
                Err(_) => json!({"built": true, "dumped": false, "adds": b.adds, "handles": b.handles_json()}),
                Ok(d) => {
                    json!({"built": true, "dumped": d.is_object(), "dump": d, "adds": b.adds, "handles": b.handles_json()})
                }
            }
        }
    };
    let _ = std::fs::remove_file(&path);
    out
}

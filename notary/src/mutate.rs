//! Storage and network damage: byte-level, and structure-aware on the JSON
//! form of an artefact.
use serde_json::Value;
use simkit::Sim;

/// Damages bytes the way a disk or a hostile relay does.
pub fn bytes(sim: &Sim, b: &mut Vec<u8>, donors: &[Vec<u8>]) {
    if b.is_empty() { return; }
    match sim.weighted(&[4, 2, 2, 2, 2, 1]) {
        0 => {
            sim.fault("bit_flip");
            for _ in 0..1 + sim.weighted(&[4, 1, 1]) { let i = sim.index(b.len()); b[i] ^= 1 << sim.pick(8); }
        }
        1 => { sim.fault("truncated"); let n = sim.index(b.len()); b.truncate(n); }
        2 => {
            sim.fault("block_from_other_file");
            let d = &donors[sim.index(donors.len())];
            let i = sim.index(b.len());
            let n = (1 + sim.size(512) as usize).min(b.len() - i);
            let j = if sim.pick(2) == 0 { i } else { sim.index(d.len().max(1)) };
            for k in 0..n { if let (Some(x), Some(y)) = (b.get_mut(i + k), d.get(j + k)) { *x = *y } }
        }
        3 => {
            sim.fault("block_zeroed");
            let i = sim.index(b.len());
            let n = (1 + sim.size(512) as usize).min(b.len() - i);
            b[i..i + n].fill(0);
        }
        4 => { sim.fault("byte_overwrite"); let i = sim.index(b.len()); b[i] = [0xff, 0, 1, 0x80][sim.index(4)]; }
        _ => {
            sim.fault("bytes_removed_or_inserted");
            let i = sim.index(b.len());
            if sim.pick(2) == 0 { b.remove(i); } else { let x = sim.pick(256) as u8; b.insert(i, x); }
        }
    }
}

/// A random path into a value; stops early with some probability.
fn path(sim: &Sim, v: &Value) -> Vec<String> {
    let mut p = vec![];
    let mut cur = v;
    loop {
        match cur {
            Value::Object(o) if !o.is_empty() => {
                if !p.is_empty() && sim.chance(1, 5) { break; }
                let k = o.keys().nth(sim.index(o.len())).unwrap();
                p.push(k.clone());
                cur = &o[k];
            }
            Value::Array(a) if !a.is_empty() => {
                if sim.chance(1, 3) { break; }
                let i = sim.index(a.len());
                p.push(i.to_string());
                cur = &a[i];
            }
            _ => break,
        }
    }
    p
}
pub fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut cur = v;
    for k in p {
        cur = match cur { Value::Object(o) => o.get_mut(k)?, Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, _ => return None };
    }
    Some(cur)
}

/// One structural change; donors are other artefacts of the same type.
pub fn json(sim: &Sim, v: &mut Value, donors: &[Value]) {
    let p = path(sim, v);
    let d = if donors.is_empty() { Value::Null } else { donors[sim.index(donors.len())].clone() };
    let other = { let q = path(sim, v); at(v, &q).cloned().unwrap() };
    let op = sim.weighted(&[4, 4, 2]);
    let Some(x) = at(v, &p) else { return };
    match op {
        0 => {
            sim.fault("field_from_other_artefact");
            let mut d = d;
            if let Some(y) = at(&mut d, &p) { *x = y.clone(); }
        }
        1 => {
            sim.fault("field_altered");
            match x {
                Value::Number(n) => {
                    let u = n.as_u64().unwrap_or(0);
                    let y = match sim.pick(6) { 0 => u ^ 1, 1 => u.wrapping_add(1), 2 => u.wrapping_sub(1), 3 => u ^ (1 << sim.pick(32)), 4 => 0, _ => sim.size(u32::MAX as u64) };
                    *x = Value::from(y);
                }
                Value::Array(a) => match sim.pick(5) {
                    0 => { a.pop(); }
                    1 if !a.is_empty() => { let i = sim.index(a.len()); a.remove(i); }
                    2 if !a.is_empty() => { let i = sim.index(a.len()); let e = a[i].clone(); a.insert(i, e); }
                    3 if a.len() > 1 => { let (i, j) = (sim.index(a.len()), sim.index(a.len())); a.swap(i, j); }
                    _ => a.clear(),
                },
                Value::String(t) => *t = match t.as_str() { "Sent" => "Received".into(), "Received" => "Sent".into(), _ => { let mut t = t.clone(); if sim.pick(2) == 0 { t.push('a') } else { t.pop(); } t } },
                Value::Bool(b) => *b = !*b,
                Value::Null => *x = other,
                Value::Object(_) => *x = Value::Null,
            }
        }
        _ => { sim.fault("field_from_elsewhere"); *x = other; }
    }
}

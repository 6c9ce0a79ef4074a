//! C06, C17 (and C11): histories of ViewMC.tla run on the library; the
//! execution is recorded and checked against View.tla.
use super::*;
use crate::disk::SimErr;
use crate::ensure;
use crate::stdfs::{self, Std};
use crate::world::*;
use ext4_view::{DirEntry, File, ReadDir};
use serde_json::json;
use std::collections::HashMap;

/// Arm the reader for one operation.
pub fn arm(ctl: &CtlRef, how: &str) {
    let mut c = ctl.borrow_mut();
    c.fail.clear();
    c.fail_all = how == "a";
    if let Ok(k) = how.parse::<u64>() {
        if k > 0 {
            let at = c.calls + k;
            c.fail.insert(at);
        }
    }
}
/// Disarm; did a reader call fail since `before`? An I/O error must carry the
/// reader's own error, from a call of this operation.
pub fn disarm<T>(ctl: &CtlRef, before: (u64, u64), r: &Result<T, Ext4Error>, what: &str) -> Result<bool, String> {
    let mut c = ctl.borrow_mut();
    c.fail.clear();
    c.fail_all = false;
    if let Err(Ext4Error::Io(e)) = r {
        match e.downcast_ref::<SimErr>() {
            Some(x) => ensure!(x.kind == "fault" && x.call > before.0 && x.call <= c.calls, "{what}: the error is not this operation's: {x:?} {before:?} {}", c.calls),
            None => return Err(format!("{what}: not the reader's error: {e:?}")),
        }
        ensure!(!e.to_string().is_empty(), "{what}: no text");
    }
    Ok(c.failed > before.1)
}
pub fn mark(ctl: &CtlRef) -> (u64, u64) {
    let c = ctl.borrow();
    (c.calls, c.failed)
}

pub fn any_world(cx: &mut Cx) -> Std {
    let p = loop {
        let p = cx.rng.pick(PROFILES);
        if !p.huge {
            break p;
        }
    };
    let journal = cx.rng.chance(1, 3);
    cx.count(if journal { "journaled" } else { "plain" });
    let mut r = cx.rng.clone();
    let st = stdfs::build_with(&p, &mut r, journal);
    cx.rng = r;
    st
}

struct H {
    f: File,
    node: String,
}
struct I {
    it: ReadDir,
    dir: String,
    path: Vec<u8>,
}

pub fn run(sc: &Value, cx: &mut Cx) -> Res {
    let st = any_world(cx);
    let bs = st.img.bs as u64;
    let (fs, ctl) = load(&st.img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let mut cl: HashMap<u64, Ext4> = HashMap::from([(1, fs)]);
    let mut hs: HashMap<u64, H> = HashMap::new();
    let mut its: HashMap<u64, I> = HashMap::new();
    let mut ents: HashMap<u64, (DirEntry, String)> = HashMap::new();
    let mut ev: Vec<Value> = vec![];
    let size: serde_json::Map<String, Value> = st.nodes.iter().map(|(n, x)| (n.clone(), (x.spec.size).into())).collect();
    let r = exec(sc, cx, &st, bs, &ctl, &mut cl, &mut hs, &mut its, &mut ents, &mut ev);
    cx.add("events", ev.len() as u64);
    cx.trace = Some(json!({"nh": sc["nh"], "ni": sc["ni"], "nc": sc["nc"], "size": size, "ev": ev}));
    r?;
    check_no_oob(&ctl)
}

#[allow(clippy::too_many_arguments)]
fn exec(
    sc: &Value,
    cx: &mut Cx,
    st: &Std,
    bs: u64,
    ctl: &CtlRef,
    cl: &mut HashMap<u64, Ext4>,
    hs: &mut HashMap<u64, H>,
    its: &mut HashMap<u64, I>,
    ents: &mut HashMap<u64, (DirEntry, String)>,
    ev: &mut Vec<Value>,
) -> Res {
    let nodes = arr(sc, "nodes");
    for (q, r) in arr(sc, "hist").iter().enumerate() {
        let (e, slot, c, how) = (s(r, "e"), u(r, "s"), u(r, "c"), s(r, "arm"));
        let node = nodes[q].as_str().unwrap();
        let sym: String = arr(r, "path").iter().map(|x| format!("/{}", x.as_str().unwrap())).collect();
        let path = st.path(&sym);
        let p = ext4_view::Path::new(&path);
        let before = mark(ctl);
        let what = format!("request {q}: {e} {sym}");
        match e {
            "open" => {
                if hs.contains_key(&slot) || !cl.contains_key(&c) {
                    continue;
                }
                arm(ctl, how);
                let x = cl[&c].open(p);
                let hit = disarm(ctl, before, &x, &what)?;
                ev.push(json!({"e": e, "s": slot, "c": c, "path": r["path"], "hit": hit, "res": rclass(&x)}));
                if let Ok(f) = x {
                    ev.push(json!({"e": "pos", "s": slot, "n": f.position().min(2_000_000_000)}));
                    ensure!(stdfs::real_meta(f.metadata()) == st.expect("metadata", node), "{what}: metadata of the open file");
                    hs.insert(slot, H { f, node: node.to_string() });
                }
            }
            "read" => {
                let Some(h) = hs.get_mut(&slot) else { continue };
                let n = match s(r, "n") {
                    "0" => 0,
                    "1" => 1,
                    "3" => 3,
                    "bs-1" => bs - 1,
                    "bs" => bs,
                    "bs+1" => bs + 1,
                    _ => 5 * bs + 7,
                } as usize;
                let mut buf = vec![0xCC; n];
                let pos = h.f.position();
                arm(ctl, how);
                let x = h.f.read_bytes(&mut buf);
                let hit = disarm(ctl, before, &x, &what)?;
                let k = *x.as_ref().unwrap_or(&0);
                let data = &st.nodes[&h.node].data;
                let val = k <= n && (k == 0 || data.get(pos as usize..).and_then(|d| d.get(..k)) == Some(&buf[..k]));
                if k <= n {
                    ensure!(x.is_err() || buf[k..].iter().all(|b| *b == 0xCC), "{what}: wrote past the returned length");
                }
                ev.push(json!({"e": e, "s": slot, "n": n, "hit": hit, "res": rclass(&x), "k": k.min(2_000_000_000), "val": val}));
                ev.push(json!({"e": "pos", "s": slot, "n": h.f.position().min(2_000_000_000)}));
                cx.count(if hit { "read_hit" } else { "read" });
            }
            "seek" => {
                let Some(h) = hs.get_mut(&slot) else { continue };
                let len = st.nodes[&h.node].data.len() as u64;
                let to = match s(r, "n") {
                    "0" => 0,
                    "1" => 1,
                    "bs-1" => bs - 1,
                    "bs" => bs,
                    "bs+1" => bs + 1,
                    "mid" => len / 2,
                    "end-bs" => len.saturating_sub(bs),
                    "end-1" => len.saturating_sub(1),
                    "end" => len,
                    "end+1" => len + 1,
                    _ => len.saturating_sub(1) / bs * bs,
                };
                arm(ctl, how);
                let x = h.f.seek_to(to);
                let hit = disarm(ctl, before, &x, &what)?;
                ev.push(json!({"e": e, "s": slot, "n": to, "hit": hit, "res": rclass(&x)}));
                ev.push(json!({"e": "pos", "s": slot, "n": h.f.position().min(2_000_000_000)}));
                cx.count(if hit { "seek_hit" } else { "seek" });
            }
            "close" => {
                if hs.remove(&slot).is_some() {
                    ev.push(json!({"e": e, "s": slot}));
                }
            }
            "iter" => {
                if its.contains_key(&slot) || !cl.contains_key(&c) {
                    continue;
                }
                arm(ctl, how);
                let x = cl[&c].read_dir(p);
                let hit = disarm(ctl, before, &x, &what)?;
                ev.push(json!({"e": e, "s": slot, "c": c, "path": r["path"], "hit": hit, "res": rclass(&x)}));
                if let Ok(it) = x {
                    its.insert(slot, I { it, dir: node.to_string(), path });
                }
            }
            "next" => {
                let Some(i) = its.get_mut(&slot) else { continue };
                arm(ctl, how);
                let x = i.it.next();
                let none = x.is_none();
                let x = x.transpose();
                let hit = disarm(ctl, before, &x, &what)?;
                let (mut k, mut val) = (0, false);
                let list = &st.lists[&i.dir];
                if let Ok(Some(en)) = &x {
                    if let Some(j) = list.iter().position(|l| l.0 == en.file_name().as_ref()) {
                        k = j + 1;
                        let mut full = i.path.clone();
                        if full.last() != Some(&b'/') {
                            full.push(b'/');
                        }
                        full.extend(&list[j].0);
                        val = en.path().as_ref() == full
                            && en.file_type().is_ok_and(|t| stdfs::tname(t) == st.nodes[&list[j].1].ty);
                    }
                }
                ev.push(json!({"e": e, "s": slot, "hit": hit, "res": if none { "End" } else { rclass(&x) }, "k": k, "val": val}));
                if let Ok(Some(en)) = x {
                    ents.insert(slot, (en, if k > 0 { list[k - 1].1.clone() } else { String::new() }));
                }
                cx.count(if hit { "next_hit" } else { "next" });
            }
            "meta" => {
                let Some((en, child)) = ents.get(&slot) else { continue };
                arm(ctl, how);
                let x = en.metadata();
                let hit = disarm(ctl, before, &x, &what)?;
                let val = x.as_ref().is_ok_and(|m| st.nodes.contains_key(child) && stdfs::real_meta(m) == st.expect("metadata", child));
                ev.push(json!({"e": e, "s": slot, "hit": hit, "res": rclass(&x), "val": val}));
            }
            "drop" => {
                if its.remove(&slot).is_some() {
                    ev.push(json!({"e": e, "s": slot}));
                }
            }
            "clone" => {
                if !cl.contains_key(&c) || cl.contains_key(&slot) {
                    continue;
                }
                let x = cl[&c].clone();
                cl.insert(slot, x);
                ev.push(json!({"e": e, "s": slot, "c": c}));
            }
            "unclone" => {
                if cl.len() < 2 || cl.remove(&c).is_none() {
                    continue;
                }
                ev.push(json!({"e": e, "c": c}));
            }
            "path" => {
                let op = s(r, "op");
                if !cl.contains_key(&c) {
                    continue;
                }
                arm(ctl, how);
                let mut partial = vec![];
                let x = stdfs::exec(&cl[&c], op, &path, &mut partial);
                let hit = disarm(ctl, before, &x, &what)?;
                // "exists" has a value also for what is not there.
                let val = x.as_ref().is_ok_and(|v| (op == "exists" || !node.is_empty()) && *v == st.expect(op, node));
                ev.push(json!({"e": e, "c": c, "op": op, "path": r["path"], "hit": hit, "res": rclass(&x), "val": val}));
                cx.count(if hit { "path_hit" } else { "path" });
            }
            x => panic!("src/adapters: request {x}"),
        }
    }
    Ok(())
}

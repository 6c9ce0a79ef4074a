use super::*;
use crate::disk::SimErr;
use crate::enc::*;
use crate::ensure;
use crate::world::*;
use ext4_view::File;
use std::io::{Read, Seek, SeekFrom};

/// Lay out a file of `kinds` (d/h/u), each abstract block being `k` real blocks.
/// Returns the logical map.
pub fn layout_file(w: &mut World, parent: u32, name: &[u8], kinds: &[&str], k: u64, size: u64, style: u64) -> (u32, LMap) {
    let ino = w.ino();
    let mut spec = InodeSpec::new(S_IFREG | 0o644);
    spec.generation = w.rng.next() as u32;
    spec.size = size;
    let mut lmap = LMap::default();
    let mut exts = vec![];
    let mut pairs = vec![];
    for (i, kind) in kinds.iter().enumerate() {
        let l = i as u64 * k;
        match *kind {
            "h" => lmap.push(k, None),
            "u" => {
                if style < 3 {
                    let p = w.b.alloc_run(k);
                    exts.push(Ext { lblk: l as u32, len: k as u16, phys: p, unwritten: true });
                }
                lmap.push(k, None);
            }
            _ => {
                if w.rng.chance(1, 2) {
                    w.b.alloc();
                }
                let p = w.b.alloc_run(k);
                exts.push(Ext { lblk: l as u32, len: k as u16, phys: p, unwritten: false });
                for j in 0..k {
                    pairs.push((l + j, p + j));
                }
                lmap.push(k, Some(p));
            }
        }
    }
    match style {
        0 => {
            spec.flags = FL_EXTENTS;
            spec.iblock = w.b.extent_root(&ExtNode::Leaf(exts), ino, spec.generation);
        }
        1 => {
            spec.flags = FL_EXTENTS;
            let kids: Vec<_> = exts.iter().map(|e| (e.lblk, ExtNode::Leaf(vec![*e]), w.b.alloc())).collect();
            spec.iblock = w.b.extent_root(&if kids.is_empty() { ExtNode::Leaf(vec![]) } else { ExtNode::Index(kids) }, ino, spec.generation);
        }
        2 => {
            spec.flags = FL_EXTENTS;
            let kids: Vec<_> = exts.iter().map(|e| (e.lblk, ExtNode::Index(vec![(e.lblk, ExtNode::Leaf(vec![*e]), w.b.alloc())]), w.b.alloc())).collect();
            spec.iblock = w.b.extent_root(&if kids.is_empty() { ExtNode::Leaf(vec![]) } else { ExtNode::Index(kids) }, ino, spec.generation);
        }
        _ => w.map_blockmap(&mut spec, &pairs),
    }
    w.b.put_inode(ino, &spec);
    w.link(parent, name, ino, 1);
    (ino, lmap)
}
/// A file large enough that reading it replaces the whole block cache.
pub fn evict_file(w: &mut World) {
    let bs = w.bs();
    let n = (700 * 1024u64).div_ceil(bs).max(12);
    let p = w.b.alloc_run(n);
    let ino = w.ino();
    let mut spec = InodeSpec::new(S_IFREG | 0o644);
    spec.flags = FL_EXTENTS;
    spec.size = n * bs;
    spec.iblock = w.b.extent_root(&ExtNode::Leaf(vec![Ext { lblk: 0, len: n as u16, phys: p, unwritten: false }]), ino, 0);
    w.b.put_inode(ino, &spec);
    w.link(2, b"evict", ino, 1);
}
pub fn evict(f: &mut File) -> Res {
    f.seek_to(0).map_err(|e| format!("evict: {e:?}"))?;
    let mut b = vec![0; 65536];
    while f.read_bytes(&mut b).map_err(|e| format!("evict: {e:?}"))? > 0 {}
    Ok(())
}

/// History of FileHandle.tla.
pub fn run(sc: &Value, cx: &mut Cx) -> Res {
    let names = ["1k-csum-64", "4k-csum-64-seed", "1k-plain-128", "2k-csum-32", "1k-csum-i1024"];
    let pr = profile(names[cx.rng.below(5) as usize]);
    let mut w = World::new(&pr, cx.rng.clone());
    let bs = w.bs();
    let kinds: Vec<&str> = arr(sc, "kinds").iter().map(|k| k.as_str().unwrap()).collect();
    let k = match cx.rng.below(8) {
        0 => 2,
        1 => 6,
        2 => 13,
        _ => 1,
    };
    let pof = |unit: u64| -> u64 { unit / 3 * k * bs + [0, 1, k * bs - 1][(unit % 3) as usize] };
    let usize_ = u(sc, "size");
    let size = pof(usize_);
    let style = cx.rng.below(4);
    cx.count(&format!("style{style}"));
    let (_, lmap) = layout_file(&mut w, 2, b"f", &kinds, k, size, style);
    evict_file(&mut w);
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let mut ev = fs.open("/evict").map_err(|e| format!("open evict: {e:?}"))?;
    let mut f = fs.open("/f").map_err(|e| format!("open: {e:?}"))?;
    let big = *[u64::MAX, 1 << 40, i64::MAX as u64, 1 << 63, (1 << 32) * bs].get(cx.rng.below(5) as usize).unwrap();
    let pabs = |unit: u64| -> u64 { if unit >= 100_000 { big } else { pof(unit) } };
    let mut pos = 0u64; // concrete
    let mut upos = 0u64; // abstract
    let mut log: Vec<String> = vec![];
    let res = (|| -> Res {
        for o in arr(sc, "hist") {
            let (op, n, r) = (s(o, "op"), i(o, "n"), s(o, "r"));
            let uto = u(o, "to");
            let to = pabs(uto);
            let std_if = cx.rng.chance(1, 2);
            let fault = r == "fault";
            if fault && cx.rng.chance(2, 3) || cx.rng.chance(1, 12) {
                evict(&mut ev)?;
            }
            ctl.borrow_mut().fail_all = fault;
            log.push(format!("{op} {n} -> {uto} {r}"));
            if op == "read" {
                let want_len = if n == 0 { 0 } else { (pof(upos.min(100_000) + n as u64) - pof(upos.min(100_000))) as usize };
                let mut buf = vec![0x5a; want_len];
                let mut cur = pos;
                let mut first = true;
                loop {
                    let got: Result<usize, (bool, String)> = if std_if {
                        f.read(&mut buf).map_err(|e| (true, format!("{e:?}")))
                    } else {
                        f.read_bytes(&mut buf).map_err(|e| (e.as_io().is_some_and(|x| x.downcast_ref::<SimErr>().is_some()), format!("{e:?}")))
                    };
                    match got {
                        Ok(k) => {
                            ensure!(k <= buf.len(), "read returned {k} for a buffer of {}", buf.len());
                            let avail = size.saturating_sub(cur).min(buf.len() as u64);
                            ensure!(k as u64 <= avail, "read returned {k} bytes, only {avail} are left");
                            ensure!(k > 0 || avail == 0, "read returned 0 bytes at {cur} of {size}");
                            let mut want = vec![0; k];
                            lmap.bytes(&img, cur, &mut want);
                            ensure!(buf[..k] == want[..], "read at {cur}: {}", diff(&buf[..k], &want));
                            cur += k as u64;
                            ensure!(f.position() == cur, "position {} instead of {cur}", f.position());
                            cx.count("reads");
                        }
                        Err((io, e)) => {
                            ensure!(fault, "read failed: {e}");
                            ensure!(io, "a reader failure surfaced as {e}");
                            ensure!(f.position() == cur, "a failed read moved the position from {cur} to {}", f.position());
                            cx.count("faulted_reads");
                            break;
                        }
                    }
                    if fault || cur >= to {
                        break;
                    }
                    ensure!(!first || cur > pos || to == pos, "no progress");
                    first = false;
                    buf = vec![0x5a; (to - cur) as usize];
                }
                ctl.borrow_mut().fail_all = false;
                if cur != to {
                    // The call did more (or, for an injected fault, less harm) than
                    // the specification's branch; go back to its position.
                    f.seek_to(to).map_err(|e| format!("seek_to: {e:?}"))?;
                    cx.count("resync");
                }
                pos = to;
                upos = uto;
                continue;
            }
            let bad = r == "bad";
            let arg = if fault { pabs(n as u64) } else { to };
            if r == "free" || (bad && n > 0 && op == "cur" && pos > i64::MAX as u64) {
                // From a position beyond every signed offset.
                let d = match cx.rng.below(5) {
                    0 => 0,
                    1 => i64::MAX,
                    2 => i64::MIN,
                    3 => 1 + cx.rng.below(1000) as i64,
                    _ => -1 - (cx.rng.below(1000) as i64),
                };
                let exact = pos as i128 + d as i128;
                match f.seek(SeekFrom::Current(d)) {
                    Ok(p) => ensure!(p as i128 == exact && f.position() == p, "Current({d}) from {pos} went to {p}, position {}", f.position()),
                    Err(_) => ensure!(f.position() == pos, "failed Current({d}) moved the position from {pos} to {}", f.position()),
                }
                f.seek_to(pos).map_err(|e| format!("seek_to: {e:?}"))?;
                cx.count("far_relative");
                continue;
            }
            // The sum of base and offset exceeds i64::MAX: by one, or by a lot.
            let over = |base: u64, rng: &mut Rng| if rng.chance(1, 2) { i64::MAX } else { i64::MAX - base as i64 + 1 };
            let sf = match op {
                "start" => SeekFrom::Start(arg),
                "cur" => SeekFrom::Current(if bad && n > 0 {
                    over(pos, &mut cx.rng)
                } else if bad {
                    if cx.rng.chance(1, 3) { i64::MIN } else { -(pos as i64) - 1 - cx.rng.below(1000) as i64 }
                } else {
                    to as i64 - pos as i64
                }),
                _ => SeekFrom::End(if bad && n > 0 {
                    over(size, &mut cx.rng)
                } else if bad {
                    if cx.rng.chance(1, 3) { i64::MIN } else { -(size as i64) - 1 - cx.rng.below(1000) as i64 }
                } else {
                    to as i64 - size as i64
                }),
            };
            let got: Result<u64, String> = match (sf, std_if) {
                (SeekFrom::Start(p), false) => f.seek_to(p).map(|()| p).map_err(|e| format!("{e:?}")),
                _ => f.seek(sf).map_err(|e| format!("{e:?}")),
            };
            ctl.borrow_mut().fail_all = false;
            match got {
                Ok(p) => {
                    ensure!(!bad, "{sf:?} from {pos} succeeded, position {p}");
                    ensure!(p == arg, "{sf:?} returned {p} instead of {arg}");
                    ensure!(f.position() == arg, "{sf:?}: position {} instead of {arg}", f.position());
                    if fault {
                        f.seek_to(to).map_err(|e| format!("seek_to: {e:?}"))?;
                        cx.count("resync");
                    }
                    cx.count("seeks");
                }
                Err(e) => {
                    ensure!(bad || fault, "{sf:?} failed: {e}");
                    ensure!(f.position() == pos, "failed {sf:?} moved the position from {pos} to {}", f.position());
                    cx.count(if bad { "bad_seeks" } else { "faulted_seeks" });
                }
            }
            pos = to;
            upos = uto;
        }
        // The rest of the file.
        let mut rest = vec![];
        f.read_to_end(&mut rest).map_err(|e| format!("read_to_end: {e:?}"))?;
        let mut want = vec![0; size.saturating_sub(pos) as usize];
        lmap.bytes(&img, pos, &mut want);
        ensure!(rest == want, "rest of the file from {pos}: {}", diff(&rest, &want));
        ensure!(f.metadata().len() == size, "metadata length");
        check_no_oob(&ctl)
    })();
    res.map_err(|e| format!("{e} (k={k} bs={bs} style={style} size={size}; {})", log.join("; ")))
}

use super::*;
use crate::enc::*;
use crate::ensure;
use crate::world::*;
use std::collections::BTreeMap;

/// Scenario of FileMap.tla: an extent-mapped file.
pub fn extents(sc: &Value, cx: &mut Cx) -> Res {
    let names = ["1k-csum-64", "1k-plain-128", "4k-csum-64-seed", "2k-csum-32", "4k-gdtcsum", "64k-huge", "4k-desc128-i512", "16k-plain-64", "1k-csum-i1024"];
    let pr = profile(names[(cx.rng.below(40) as usize) % names.len()]);
    let pr = if pr.huge && !cx.rng.chance(1, 4) { profile("1k-csum-64") } else { pr };
    let segs = arr(sc, "segs");
    let bs = u64::from(pr.bs);
    let maxn = segs.iter().map(|s| u(s, "n")).max().unwrap_or(1);
    // Scale: every abstract block stands for `s` real blocks.
    let scale: u64 = match cx.rng.below(24) {
        0..=17 => 1,
        18 => 2,
        19 => 5,
        20 | 21 => 33,
        22 if bs <= 2048 => 32768 / maxn,
        23 if bs <= 2048 => 32767 / maxn,
        _ => 3,
    };
    // Just beyond 4 GiB.
    let fsb = u(sc, "fsb");
    let all = cx.idx == 3;
    let big = fsb > 0 && (all || cx.rng.chance(1, 150));
    // Nodes filled to their capacity: runs divided into many extents, and
    // leaves into many leaves.
    let frag = !big && cx.rng.chance(1, 24);
    let frag_idx = cx.rng.chance(1, 2);
    let cap = |bs: u64| (bs - 16) / 12;
    let (pr, scale) = if frag {
        let name = ["1k-csum-64", "1k-plain-128", "4k-csum-64-seed", "4k-gdtcsum", "16k-plain-64", "64k-csum-64"][cx.rng.below(6) as usize];
        cx.count("full_nodes");
        let pr = profile(name);
        let c = cap(u64::from(pr.bs));
        (Profile { groups: 8, ..pr }, c - cx.rng.below(2) * cx.rng.below(c / 2))
    } else {
        (pr, scale)
    };
    let (pr, scale) = if big { (Profile { groups: 8, ..profile("64k-csum-64") }, 65536 / fsb + 1) } else { (pr, scale) };
    let bs = u64::from(pr.bs);
    let pr = if scale > 1000 && !big && !frag { Profile { groups: 40, ..pr } } else { pr };
    let mut w = World::new(&pr, cx.rng.clone());
    if big {
        cx.count("beyond_4gib");
    }
    cx.count(if scale > 1000 { "scaled_max_extent" } else if scale > 1 { "scaled" } else { "unscaled" });
    // Physical placement per segment.
    let mut phys: Vec<u64> = vec![];
    let need = |n: u64| n * scale;
    let high = w.b.high();
    // A multiple of 2^32 away from the other high blocks.
    let over: Vec<u64> = (1..w.b.cfg.blocks >> 32)
        .take(200)
        .map(|m| m << 32)
        .filter(|m| m + 200_000 < high || *m > high + 10_000_000)
        .collect();
    let mut straddled = over.is_empty();
    for (k, s) in segs.iter().enumerate() {
        let n = need(u(s, "n"));
        let unw = super::s(s, "k") == "unw";
        let hole = super::s(s, "k") == "hole";
        if hole {
            phys.push(0);
            continue;
        }
        let start = if pr.huge && cx.rng.chance(2, 3) {
            // Beyond 2^32, or containing the block at a multiple of 2^32, or just below it.
            if !straddled && cx.rng.chance(1, 2) {
                straddled = true;
                cx.count("straddle");
                cx.rng.pick(&over) - [0, n - 1, n / 2, cx.rng.below(n), n][cx.rng.below(5) as usize]
            } else {
                high + k as u64 * 70_000
            }
        } else if cx.rng.chance(1, 3) {
            // Contiguous with the previous allocation.
            w.b.alloc_run(n)
        } else {
            let gap = cx.rng.below(5);
            for _ in 0..gap {
                w.b.alloc();
            }
            w.b.alloc_run(n)
        };
        if unw && cx.rng.chance(1, 2) {
            // Stale contents of preallocated blocks are procedural anyway.
        }
        phys.push(start);
    }
    let len_of = |n: u64, unw: bool| -> u16 {
        let l = n * scale;
        if unw { l.min(32767) as u16 } else { l.min(32768) as u16 }
    };
    let ino = w.ino();
    let mut spec = InodeSpec::new(S_IFREG | 0o644);
    spec.generation = w.rng.next() as u32;
    spec.flags = FL_EXTENTS;
    // Build the tree exactly in the shape the specification chose.
    fn build(t: &Value, w: &mut World, phys: &[u64], scale: u64, len_of: &dyn Fn(u64, bool) -> u16, far: &mut u64, full: &dyn Fn(Vec<Ext>, bool) -> Vec<Ext>, wide: usize, root: bool) -> ExtNode {
        if u(t, "d") == 0 {
            ExtNode::Leaf(full(
                arr(t, "kids")
                    .iter()
                    .map(|e| {
                        let seg = (u(e, "p") / 100 - 1) as usize;
                        Ext { lblk: (u(e, "l") * scale) as u32, len: len_of(u(e, "n"), b(e, "u")), phys: phys[seg], unwritten: b(e, "u") }
                    })
                    .collect(),
                root,
            ))
        } else {
            let mut kids: Vec<ExtNode> = arr(t, "kids").iter().map(|k| build(k, w, phys, scale, len_of, far, full, wide, false)).collect();
            if !root && u(t, "d") == 1 {
                let mut n = kids.len();
                kids = kids
                    .into_iter()
                    .flat_map(|k| match k {
                        ExtNode::Leaf(es) if !es.is_empty() && n + es.len() - 1 <= wide => {
                            n += es.len() - 1;
                            es.into_iter().map(|e| ExtNode::Leaf(vec![e])).collect()
                        }
                        k => vec![k],
                    })
                    .collect();
            }
            ExtNode::Index(
                kids.into_iter()
                    .map(|n| {
                        let blk = if w.b.cfg.blocks > (1 << 32) + 4_000_000 && w.rng.chance(2, 3) {
                            // Interior nodes beyond 2^32 as well.
                            *far += 1 + w.rng.below(3);
                            *far
                        } else {
                            w.b.alloc()
                        };
                        (n.first(), n, blk)
                    })
                    .collect(),
            )
        }
    }
    let mut far = w.b.high() + 3_000_000;
    let full = |es: Vec<Ext>, root: bool| -> Vec<Ext> {
        if !frag {
            return es;
        }
        let mut left = (if root { 4 } else { cap(bs) }) - es.len() as u64;
        let mut out = vec![];
        for e in es {
            let len = u64::from(e.len);
            let pieces = 1 + left.min(len.max(1) - 1);
            left -= pieces - 1;
            let mut at = 0;
            for i in 0..pieces {
                let n = len / pieces + u64::from(i < len % pieces);
                out.push(Ext { lblk: e.lblk + at as u32, len: n as u16, phys: e.phys + at, unwritten: e.unwritten });
                at += n;
            }
        }
        out
    };
    let wide = if frag && frag_idx { (cap(bs) as usize).min(700) } else { 0 };
    let node = build(&sc["tree"], &mut w, &phys, scale, &len_of, &mut far, &full, wide, true);
    cx.count(&format!("depth{}", node.depth()));
    spec.iblock = w.b.extent_root(&node, ino, spec.generation);
    let tail = match cx.rng.below(4) {
        0 => 1,
        1 => bs - 1,
        2 => 1 + cx.rng.below(bs),
        _ => bs,
    };
    // The length may end inside the last scaled run.
    let cut = if big && (all || cx.rng.chance(2, 3)) { cx.rng.below(fsb * scale - 65536) } else if scale > 1 { cx.rng.below(scale) } else { 0 };
    spec.size = if fsb == 0 { 0 } else { (fsb * scale - 1 - cut) * bs + tail };
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &spec);
    // Expected logical map, from the specification.
    let mut lmap = LMap::default();
    for (l, m) in arr(sc, "map").iter().enumerate() {
        let id = m.as_u64().unwrap();
        if id == 0 {
            lmap.push(scale, None);
        } else {
            let seg = (id / 100 - 1) as usize;
            let off = id % 100;
            let n = u(&segs[seg], "n") * scale;
            // A clipped extent (maximum length) leaves a hole at its end.
            let len = u64::from(len_of(u(&segs[seg], "n"), false)).min(n);
            let here = len.saturating_sub(off * scale).min(scale);
            lmap.push(here, Some(phys[seg] + off * scale));
            lmap.push(scale - here, None);
        }
        let _ = l;
    }
    let size = spec.size;
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let mut probes = vec![];
    if size > 0 {
        for l in 0..=fsb {
            let at = l * scale * bs;
            for d in [0u64, 1, bs / 2] {
                probes.push(at + d);
            }
            if at > 0 {
                probes.push(at - 1);
            }
        }
        probes.push(size);
        probes.push(size - 1);
        probes.push(size + 1);
        // Shuffle so that seeks go in both directions.
        for i in (1..probes.len()).rev() {
            let j = cx.rng.below(i as u64 + 1) as usize;
            probes.swap(i, j);
        }
        probes.truncate(if scale > 1000 { 8 } else { 14 });
    }
    let cap = if big { if all { 5 << 30 } else { 0 } } else if scale > 1000 { if cx.rng.chance(1, 10) { 256 << 20 } else { 0 } } else { 32 << 20 };
    check_file(&FileCheck { fs: &fs, img: &img, path: "/f", lmap: &lmap, size, cap, probes }, cx)?;
    check_no_oob(&ctl)
}

/// Scenario of BlkMap.tla: a block-mapped file placed at the corner slots of the
/// real pointer structure.
pub fn blkmap(sc: &Value, cx: &mut Cx) -> Res {
    let rp = u(sc, "rp");
    let names: &[&str] = match rp {
        256 => &["1k-plain-128", "1k-csum-64", "1k-csum-i1024"],
        1024 => &["4k-gdtcsum", "4k-csum-64-seed", "4k-desc128-i512"],
        512 => &["2k-csum-32"],
        _ => panic!("src/adapters: rp"),
    };
    let fsb = u(sc, "fsb");
    let triple = fsb > 12 + rp + rp * rp;
    let over = b(sc, "over");
    let odds = match (over, cx.thorough) {
        (true, false) => 15,
        (false, false) => 60,
        (_, true) => 6,
    };
    if triple && !cx.rng.chance(1, odds) {
        return Ok(());
    }
    cx.count(if triple { "triple" } else if fsb > 12 + rp { "double" } else if fsb > 12 { "single" } else { "direct" });
    let pr = profile(cx.rng.pick(names));
    let mut w = World::new(&pr, cx.rng.clone());
    let bs = w.bs();
    let ino = w.ino();
    let mut spec = InodeSpec::new(S_IFREG | 0o600);
    spec.generation = w.rng.next() as u32;
    let mut ind: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
    let path_of = |v: &Value| -> Vec<u64> { arr_of(v).iter().map(|x| x.as_u64().unwrap()).collect() };
    for e in arr(sc, "empty") {
        // Create the indirect block without any pointers in it.
        let mut p = path_of(e);
        p.push(0);
        w.blockmap_set(&mut spec, &mut ind, &p, 0);
    }
    let mut by_id: BTreeMap<i64, (u64, u64)> = BTreeMap::new(); // id -> (lblk, phys)
    for e in arr(sc, "blocks") {
        if cx.rng.chance(1, 2) {
            w.b.alloc();
        }
        let phys = w.b.alloc();
        w.blockmap_set(&mut spec, &mut ind, &path_of(&e["path"]), phys as u32);
        by_id.insert(i(e, "id"), (u(e, "l"), phys));
    }
    let tail = match cx.rng.below(3) {
        0 => 1,
        1 => 1 + cx.rng.below(bs),
        _ => bs,
    };
    let extra = if over { cx.rng.pick(&[1, 2, 1000, 1 << 30, 1 << 41]) } else { 0 };
    spec.size = if fsb == 0 { 0 } else { (fsb + extra - 1) * bs + tail };
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &spec);
    // Expected map: the specification's probes say which corner blocks hold data.
    let mut mapped: Vec<(u64, u64)> = vec![];
    for p in arr(sc, "probe") {
        if i(p, "id") >= 0 {
            let (l, ph) = by_id[&i(p, "id")];
            ensure!(l == u(p, "l"), "scenario inconsistent");
            mapped.push((l, ph));
        }
    }
    mapped.sort();
    let mut lmap = LMap::default();
    let mut at = 0;
    for (l, ph) in &mapped {
        lmap.push(l - at, None);
        lmap.push(1, Some(*ph));
        at = l + 1;
    }
    let size = spec.size;
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let mut probes: Vec<u64> = vec![];
    for p in arr(sc, "probe") {
        let at = u(p, "l") * bs;
        probes.push(at);
        if at > 0 {
            probes.push(at - 1);
        }
        probes.push(at + bs - 1);
    }
    probes.push(size);
    for i in (1..probes.len()).rev() {
        let j = cx.rng.below(i as u64 + 1) as usize;
        probes.swap(i, j);
    }
    probes.truncate(if triple { 3 } else { 12 });
    if over {
        // Beyond what the map describes there is nothing to read, and nothing to panic about.
        cx.count("over");
        let mut f = match fs.open("/f") {
            // ext4 numbers the blocks of a file with 32 bits.
            Err(e) if class(&e) == "Corrupt" && extra > 1 << 32 => return Ok(()),
            f => f.map_err(|e| format!("open: {e:?}"))?,
        };
        ensure!(f.metadata().len() == size, "length {} instead of {size}", f.metadata().len());
        let mut buf = vec![0xCC; 40];
        for (pos, ok) in [(fsb * bs - 7, true), (fsb * bs, false), (fsb * bs - 1, true)] {
            f.seek_to(pos).map_err(|e| format!("seek to {pos}: {e:?}"))?;
            let r = f.read_bytes(&mut buf);
            if ok {
                let n = r.map_err(|e| format!("read at {pos}: {e:?}"))?;
                let mut want = vec![0; n];
                lmap.bytes(&img, pos, &mut want);
                ensure!(n >= 1 && n as u64 <= fsb * bs - pos && buf[..n] == want, "read at {pos}: {n} bytes");
                if pos + n as u64 == fsb * bs {
                    let r = f.read_bytes(&mut buf);
                    ensure!(rclass(&r) == "Corrupt", "reading on past the end of the map: {r:?}");
                }
            } else {
                ensure!(rclass(&r) == "Corrupt", "read past the end of the map: {r:?}");
                ensure!(f.position() == pos, "the position moved");
            }
        }
        return check_no_oob(&ctl);
    }
    let cap = if fsb > 12 + rp && !cx.rng.chance(1, 30) { 0 } else { 80 << 20 };
    check_file(&FileCheck { fs: &fs, img: &img, path: "/f", lmap: &lmap, size, cap, probes }, cx)?;
    check_no_oob(&ctl)
}

pub fn arr_of(v: &Value) -> &[Value] {
    match v {
        Value::Array(a) => a,
        Value::Object(o) if o.is_empty() => &[],
        x => panic!("src/adapters: {x}"),
    }
}

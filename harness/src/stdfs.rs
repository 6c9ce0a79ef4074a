//! The reference filesystem of spec/StdFs.tla and its operations.
use crate::enc::*;
use crate::jenc::*;
use crate::world::*;
use ext4_view::{Ext4, Ext4Error, FileType};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Kind {
    Sb,
    Gd(u32),
    Inode,
    Leaf,
    DxRoot,
    DxNode,
    Ext,
    /// Block pointers; a block of the journal. No checksum (pointers), or one
    /// that only the journal knows.
    Ptr,
    Jrn,
}
#[derive(Clone, Debug)]
pub struct Obj {
    pub kind: Kind,
    pub pos: u64,
    pub len: usize,
    pub ino: u32,
    pub generation: u32,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub ino: u32,
    pub ty: &'static str,
    pub spec: InodeSpec,
    pub data: Vec<u8>,
    pub canon: Vec<u8>,
}
pub struct Std {
    pub img: Rc<Img>,
    pub cfg: Cfg,
    pub objs: BTreeMap<String, Obj>,
    /// Objects without checksums: "P.k.1".. and "J.sb", "J.1", "J.2", "J.last".
    pub raw: BTreeMap<String, Obj>,
    pub names: BTreeMap<String, Vec<u8>>,
    pub nodes: BTreeMap<String, Node>,
    /// Listing of each directory in on-disk order: (name bytes, node).
    pub lists: BTreeMap<String, Vec<(Vec<u8>, String)>>,
}
pub const DIRS: [&str; 5] = ["root", "d", "h", "t", "b"];

pub fn leaves(dir: &str) -> Vec<Vec<&'static str>> {
    match dir {
        "root" => vec![vec![".", "..", "d", "h", "t"], vec!["b", "f", "g", "e"], vec!["s", "sl", "dl", "q", "v", "k"]],
        "d" => vec![vec![".", "..", "x1"], vec!["x2"], vec!["x3"]],
        "b" => vec![vec![".", "..", "w1"], vec!["w2"], vec!["w3"], vec!["w4"], vec!["w5"], vec!["w6"]],
        "h" => vec![vec!["y1"], vec!["y2"], vec!["y3"]],
        _ => vec![vec!["z1"], vec!["z2"], vec!["z3"], vec!["z4"]],
    }
}
pub fn parent_of(n: &str) -> &'static str {
    match n.as_bytes()[0] {
        b'x' => "d",
        b'y' => "h",
        b'z' => "t",
        b'w' => "b",
        _ => "root",
    }
}
fn type_of(n: &str) -> &'static str {
    match n {
        "root" | "d" | "h" | "t" | "b" => "dir",
        "s" | "sl" | "dl" => "lnk",
        "q" => "fifo",
        _ => "reg",
    }
}
fn text(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| b' ' + rng.below(95) as u8).collect()
}

pub fn build(p: &Profile, rng: &mut Rng) -> Std {
    build_with(p, rng, false)
}
/// With `journal`, most metadata and some data exist only in the journal and
/// their home locations hold something else.
pub fn build_with(p: &Profile, rng: &mut Rng, journal: bool) -> Std {
    build_hook(p, rng, journal, true, &mut |_, _, _, _| {})
}
pub type Objs = BTreeMap<String, Obj>;
/// `hook` may change the image before metadata moves into the journal.
pub fn build_hook(p: &Profile, rng: &mut Rng, journal: bool, use_last: bool, hook: &mut dyn FnMut(&mut Img, &Cfg, &Objs, &Objs)) -> Std {
    let mut p = *p;
    if !p.huge && rng.chance(1, 4) {
        p.groups = 2 + rng.below(40) as u32;
    }
    let mut cfg = make_cfg(&p, rng);
    if journal {
        cfg.compat |= COMPAT_JOURNAL;
        cfg.incompat |= INCOMPAT_RECOVER;
    }
    let version = rng.pick(&[1u8, 2, 4, 5]);
    cfg.s_flags = if version > 2 { 2 } else { 1 };
    cfg.def_hash_version = 1;
    let hseed = cfg.hash_seed;
    let mut names: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    // Names of the indexed directories, and names that are missing there.
    let mut keys: BTreeMap<&str, Vec<u32>> = BTreeMap::new();
    for (dir, n, miss) in [("h", 3usize, "n"), ("t", 4, "m")] {
        let mut m: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        while m.len() < n {
            let len = 3 + rng.below(30) as usize;
            let nm: Vec<u8> = (0..len).map(|_| b'a' + rng.below(26) as u8).collect();
            m.insert(dir_hash(version, &nm, &hseed), nm);
        }
        let hs: Vec<u32> = m.keys().copied().collect();
        // key of leaf k: just below its name's hash or at it
        let ks: Vec<u32> =
            (0..n).map(|k| if k == 0 { 0 } else { let g = (hs[k] - hs[k - 1]) / 2 * 2; hs[k] - rng.pick(&[0, g / 4 * 2]) }).collect();
        let pre = if dir == "h" { "y" } else { "z" };
        for (k, nm) in m.into_values().enumerate() {
            names.insert(format!("{pre}{}", k + 1), nm);
        }
        for k in 0..n {
            let hi = if k + 1 < n { ks[k + 1] } else { u32::MAX };
            for _ in 0..2_000_000 {
                let len = 3 + rng.below(30) as usize;
                let nm: Vec<u8> = (0..len).map(|_| b'a' + rng.below(26) as u8).collect();
                let x = dir_hash(version, &nm, &hseed);
                if x >= ks[k] && x < hi && !hs.contains(&x) {
                    names.insert(format!("{miss}{}", k + 1), nm);
                    break;
                }
            }
            if !names.contains_key(&format!("{miss}{}", k + 1)) {
                // An interval too narrow to hit: try another filesystem.
                return build_hook(&p, rng, journal, use_last, hook);
            }
        }
        keys.insert(dir, ks);
    }
    let name = |s: &str, names: &BTreeMap<String, Vec<u8>>| names.get(s).cloned().unwrap_or_else(|| s.as_bytes().to_vec());
    let mut w = World::with_cfg(cfg, rng.clone());
    w.b.use_last = use_last;
    w.extents = true;
    let bs = w.b.bs();
    let mut objs = BTreeMap::new();
    let mut raw = BTreeMap::new();
    let mut dblocks: Vec<u64> = vec![];
    let mut nodes: BTreeMap<String, Node> = BTreeMap::new();
    let mut inos: BTreeMap<String, u32> = BTreeMap::new();
    inos.insert("root".into(), 2);
    let mut all: Vec<String> = DIRS[1..].iter().map(|s| s.to_string()).collect();
    for d in DIRS {
        for l in leaves(d) {
            for n in l {
                if n != "." && n != ".." && !all.iter().any(|x| x == n) {
                    all.push(n.to_string());
                }
            }
        }
    }
    for i in 0..all.len() {
        let j = i + rng.below((all.len() - i) as u64) as usize;
        all.swap(i, j);
    }
    // In half of the filesystems, inodes are spread over all groups.
    let spread = rng.chance(1, 2);
    for n in &all {
        let max = w.b.cfg.ipg * w.b.cfg.groups.min(40);
        if spread && rng.chance(2, 3) {
            let i = 45 + rng.below(u64::from(max - 44)) as u32;
            let last = rng.chance(1, 2);
            let i = if last { i.div_ceil(w.b.cfg.ipg) * w.b.cfg.ipg } else { i };
            if !inos.values().any(|x| *x == i) {
                inos.insert(n.clone(), i);
                continue;
            }
        }
        let i = w.ino();
        inos.insert(n.clone(), i);
        if !spread && rng.chance(1, 4) {
            w.next_ino += 1;
        }
    }
    all.push("root".into());
    for n in &all {
        let ino = inos[n];
        let ty = type_of(n);
        let mode = match ty {
            "dir" => S_IFDIR | 0o755,
            "lnk" => S_IFLNK | 0o777,
            "fifo" => S_IFIFO | 0o600,
            _ => S_IFREG | (rng.next() as u16 & 0o7777),
        };
        let mut spec = InodeSpec::new(mode);
        spec.uid = rng.next() as u32;
        spec.gid = rng.next() as u32;
        spec.generation = rng.next() as u32;
        let mut data = vec![];
        match n.as_str() {
            "f" => {
                // blocks 0..3 through E.f.1 (1 is a hole), 4..6 through E.f.2
                let b0 = w.b.alloc_run(4);
                w.b.alloc();
                let b1 = w.b.alloc_run(2);
                let (e0, e1, e2) = (w.b.alloc(), w.b.alloc(), w.b.alloc());
                let mut phys: Vec<Option<u64>> = vec![Some(b0), None, Some(b0 + 2), Some(b0 + 3)];
                phys.extend([Some(b1), Some(b1 + 1)]);
                for x in &phys {
                    let d = x.map_or(vec![0; bs], |_| text(rng, bs));
                    if let Some(x) = x {
                        dblocks.push(*x);
                        w.b.img.set_block(*x, d.clone());
                    }
                    data.extend(d);
                }
                let x = |lblk, len, phys| Ext { lblk, len, phys, unwritten: false };
                let l1 = ExtNode::Leaf(vec![x(0, 1, b0), x(2, 2, b0 + 2)]);
                let l2 = ExtNode::Leaf(vec![x(4, 2, b1)]);
                let tree = ExtNode::Index(vec![(0, ExtNode::Index(vec![(0, l1, e1), (4, l2, e2)]), e0)]);
                data.truncate(6 * bs - 1 - rng.below(bs as u64 / 2) as usize);
                spec.flags |= FL_EXTENTS;
                spec.size = data.len() as u64;
                spec.iblock = w.b.extent_root(&tree, ino, spec.generation);
                for (k, e) in [e0, e1, e2].iter().enumerate() {
                    let o = Obj { kind: Kind::Ext, pos: e * bs as u64, len: bs, ino, generation: spec.generation };
                    objs.insert(format!("E.f.{k}"), o);
                }
            }
            "s" => {
                data = b"/f".to_vec();
                spec.size = 2;
                spec.iblock[..2].copy_from_slice(&data);
            }
            "dl" => {
                data = b"nowhere".to_vec();
                spec.size = 7;
                spec.iblock[..7].copy_from_slice(&data);
            }
            "q" => {}
            // Pointers instead of extents: direct, indirect and, with small
            // blocks, double indirect.
            "k" => {
                let per = bs / 4;
                let n = if bs <= 2048 { 12 + per + 4 } else { 12 + 5 };
                let mut pairs: Vec<(u64, u64)> = vec![];
                data = vec![0; n * bs];
                for l in (0..n).filter(|l| *l < 14 || *l + 6 > n || *l == 100) {
                    if l == 3 || l == n - 2 {
                        continue;
                    }
                    let x = w.b.alloc();
                    let d = text(rng, bs);
                    data[l * bs..(l + 1) * bs].copy_from_slice(&d);
                    w.b.img.set_block(x, d);
                    pairs.push((l as u64, x));
                }
                let size = n * bs - 7;
                data.truncate(size);
                spec.size = size as u64;
                w.map_blockmap(&mut spec, &pairs);
                // Pointers beyond the end mean nothing.
                p32(&mut spec.iblock, 56, rng.pick(&[0, 1, u32::MAX]));
                let obj = |b: u64| Obj { kind: Kind::Ptr, pos: b * bs as u64, len: bs, ino, generation: spec.generation };
                raw.insert("P.k.1".to_string(), obj(u64::from(g32(&spec.iblock, 48))));
                if n > 12 + per {
                    let dind = u64::from(g32(&spec.iblock, 52));
                    raw.insert("P.k.2".to_string(), obj(dind));
                    raw.insert("P.k.3".to_string(), obj(u64::from(g32(&w.b.img.get_block(dind), 0))));
                }
            }
            // Larger than the block cache.
            "v" => {
                let k = (700 * 1024u64).div_ceil(bs as u64).max(12);
                let b0 = w.b.alloc_run(k);
                data = vec![0; k as usize * bs - 3];
                let s = rng.next();
                fill_bytes(s, bs as u32, b0, 0, &mut data);
                data.iter_mut().for_each(|x| *x = b' ' + (*x & 0x3f));
                for (i, c) in data.chunks(bs).enumerate() {
                    let mut c = c.to_vec();
                    c.resize(bs, 0x77);
                    w.b.img.set_block(b0 + i as u64, c);
                }
                spec.flags |= FL_EXTENTS;
                spec.size = data.len() as u64;
                spec.iblock =
                    w.b.extent_root(&ExtNode::Leaf(vec![Ext { lblk: 0, len: k as u16, phys: b0, unwritten: false }]), ino, spec.generation);
            }
            _ if ty == "dir" => {}
            _ => {
                data = match n.as_str() {
                    "e" => vec![],
                    "g" => text(rng, bs + bs / 2),
                    // 60 bytes or more
                    "sl" => {
                        let mut t = vec![];
                        for _ in 0..30 + rng.below(40) {
                            t.extend(rng.pick(&[&b"./"[..], b"././"]));
                        }
                        t.extend(b"d/x2");
                        t
                    }
                    _ => {
                        let mut t = n.as_bytes().to_vec();
                        let k = rng.below(60) as usize;
                        t.extend(text(rng, k));
                        t
                    }
                };
                let g = spec.generation;
                let di = w.data_inode(ino, mode, &data);
                spec = InodeSpec { uid: spec.uid, gid: spec.gid, ..di };
                // data_inode picks its own generation; the blocks' checksums
                // do not depend on it for small files
                let _ = g;
            }
        }
        if ty != "dir" {
            w.b.put_inode(ino, &spec);
        }
        let canon = if n == "root" {
            b"/".to_vec()
        } else {
            let mut c = if parent_of(n) == "root" { vec![] } else { [b"/", parent_of(n).as_bytes()].concat() };
            c.push(b'/');
            c.extend(name(n, &names));
            c
        };
        nodes.insert(n.clone(), Node { ino, ty, spec, data, canon });
    }
    let ftype = |n: &str| match type_of(n) {
        "dir" => 2,
        "lnk" => 7,
        "fifo" => 5,
        _ => 1,
    };
    let mut lists = BTreeMap::new();
    for dir in DIRS {
        let ino = inos[dir];
        let mut meta = nodes[dir].spec.clone();
        let gen_ = meta.generation;
        let child = |n: &str| -> String {
            match n {
                "." => dir.into(),
                ".." => "root".into(),
                x => x.into(),
            }
        };
        let enc: Vec<Vec<u8>> = leaves(dir)
            .iter()
            .map(|l| {
                let ents: Vec<Dirent> = l
                    .iter()
                    .map(|n| Dirent { ino: inos[&child(n)], name: name(n, &names), ftype: ftype(&child(n)), pad: 4 * rng.below(3) as usize })
                    .collect();
                w.b.dir_block(&ents, ino, gen_)
            })
            .collect();
        // (object name, kind, data, leaf index)
        let mut blocks: Vec<(String, Kind, Vec<u8>, Option<usize>)> = vec![];
        let nl = enc.len();
        for (k, d) in enc.into_iter().enumerate() {
            blocks.push((format!("L.{dir}.{}", k + 1), Kind::Leaf, d, Some(k)));
        }
        if let Some(ks) = keys.get(dir) {
            // shuffle the leaves and nodes over logical blocks 1..
            let nn = if dir == "t" { 2 } else { 0 };
            let mut perm: Vec<u32> = (1..=(nl + nn) as u32).collect();
            for i in 0..perm.len() {
                let j = i + rng.below((perm.len() - i) as u64) as usize;
                perm.swap(i, j);
            }
            let mut lay: Vec<Option<(String, Kind, Vec<u8>, Option<usize>)>> = vec![None; 1 + nl + nn];
            for (k, b) in blocks.drain(..).enumerate() {
                lay[perm[k] as usize] = Some(b);
            }
            let root: Vec<(u32, u32)> = if dir == "t" {
                for i in 0..2 {
                    let e: Vec<(u32, u32)> = (2 * i..2 * i + 2).map(|k| (ks[k], perm[k])).collect();
                    let d = w.b.dx_node(ino, gen_, &e);
                    lay[perm[nl + i] as usize] = Some((format!("N.t.{}", i + 1), Kind::DxNode, d, None));
                }
                vec![(0, perm[nl]), (ks[2], perm[nl + 1])]
            } else {
                (0..nl).map(|k| (ks[k], perm[k])).collect()
            };
            let base = if version > 2 { version - 3 } else { version };
            let d = w.b.dx_root(ino, gen_, 2, base, if dir == "t" { 1 } else { 0 }, &root);
            lay[0] = Some((format!("X.{dir}"), Kind::DxRoot, d, None));
            blocks = lay.into_iter().map(|x| x.unwrap()).collect();
            meta.flags |= FL_INDEX;
        }
        let mut list: Vec<(Vec<u8>, String)> = vec![];
        let mut exts = vec![];
        let mut base = if dir == "b" { 0 } else { w.b.alloc_run(blocks.len() as u64) };
        for (l, (o, kind, d, leaf)) in blocks.into_iter().enumerate() {
            if dir == "b" {
                base = w.b.alloc();
                w.b.alloc();
            }
            let blk = if dir == "b" { base } else { base + l as u64 };
            w.b.img.set_block(blk, d);
            if dir == "b" || l == 0 {
                exts.push(Ext { lblk: l as u32, len: 1, phys: blk, unwritten: false });
            } else {
                exts.last_mut().unwrap().len += 1;
            }
            meta.size = (l as u64 + 1) * bs as u64;
            match (&kind, leaf) {
                (Kind::DxRoot, _) => list.extend([(b".".to_vec(), child(".")), (b"..".to_vec(), child(".."))]),
                (_, Some(k)) => list.extend(leaves(dir)[k].iter().map(|n| (name(n, &names), child(n)))),
                _ => {}
            }
            objs.insert(o, Obj { kind, pos: blk * bs as u64, len: bs, ino, generation: gen_ });
        }
        meta.flags |= FL_EXTENTS;
        let tree = if dir == "b" {
            let e = w.b.alloc();
            objs.insert("E.b.1".into(), Obj { kind: Kind::Ext, pos: e * bs as u64, len: bs, ino, generation: gen_ });
            ExtNode::Index(vec![(0, ExtNode::Leaf(exts), e)])
        } else {
            ExtNode::Leaf(exts)
        };
        meta.iblock = w.b.extent_root(&tree, ino, gen_);
        w.b.put_inode(ino, &meta);
        nodes.get_mut(dir).unwrap().spec = meta;
        lists.insert(dir.to_string(), list);
    }
    for (n, v) in &nodes {
        let pos = w.b.inode_pos(v.ino);
        let o = Obj { kind: Kind::Inode, pos, len: usize::from(p.inode_size), ino: v.ino, generation: v.spec.generation };
        objs.insert(format!("I.{n}"), o);
    }
    objs.insert("sb".into(), Obj { kind: Kind::Sb, pos: 1024, len: 1024, ino: 0, generation: 0 });
    let jblks = if journal { put_journal(&mut w, 280, rng) } else { vec![] };
    let jino = w.b.inode_pos(8) / bs as u64;
    if journal {
        let o = Obj { kind: Kind::Inode, pos: w.b.inode_pos(8), len: usize::from(p.inode_size), ino: 8, generation: 0 };
        raw.insert("I.journal".into(), o);
    }
    let (mut img, cfg) = w.finish();
    let per = u64::from(cfg.bs / u32::from(cfg.desc_size));
    for (n, g) in [("gd0", 0), ("gd1", 1 + rng.below(u64::from(cfg.groups - 1)) as u32)] {
        let start = u64::from(if cfg.bs == 1024 { 2u32 } else { 1 }) + u64::from(g) / per;
        let pos = start * u64::from(cfg.bs) + u64::from(g) % per * u64::from(cfg.desc_size);
        objs.insert(n.into(), Obj { kind: Kind::Gd(g), pos, len: usize::from(cfg.desc_size), ino: 0, generation: 0 });
    }
    hook(Rc::get_mut(&mut img).unwrap(), &cfg, &objs, &raw);
    if journal {
        dblocks.extend(raw.values().filter(|o| matches!(o.kind, Kind::Ptr)).map(|o| o.pos / bs as u64));
        journalize(Rc::get_mut(&mut img).unwrap(), &objs, dblocks, jino, &jblks, &mut raw, rng);
    }
    Std { img, cfg, objs, raw, names, nodes, lists }
}

/// Move blocks into a log of a few committed transactions.
fn journalize(img: &mut Img, objs: &BTreeMap<String, Obj>, mut blocks: Vec<u64>, jino: u64, jblks: &[u64], raw: &mut Objs, rng: &mut Rng) {
    let bs = img.bs as usize;
    blocks.extend(objs.values().filter(|o| !matches!(o.kind, Kind::Sb | Kind::Gd(_))).map(|o| o.pos / bs as u64));
    blocks.sort();
    blocks.dedup();
    // The inode of the journal is needed before recovery; escaping is not
    // supported.
    blocks.retain(|b| *b != jino && rng.chance(5, 6) && img.peek(*b * bs as u64, 4) != [0xc0, 0x3b, 0x39, 0x98]);
    for i in 0..blocks.len() {
        let j = i + rng.below((blocks.len() - i) as u64) as usize;
        blocks.swap(i, j);
    }
    let mut uuid = [0u8; 16];
    uuid.iter_mut().for_each(|x| *x = rng.next() as u8);
    let j = Jrn { bs, uuid };
    let base = seq_base(rng);
    let mut log: Vec<Vec<u8>> = vec![];
    let mut seq = base;
    let per = 1 + rng.below(12) as usize;
    let mut at = 0;
    while at < blocks.len() {
        let n = match rng.below(5) {
            0 => j.max_tags(true) + rng.below(3) as usize,
            _ => 1 + rng.below(per as u64 * 2) as usize,
        }
        .min(blocks.len() - at);
        // An older version of some of them in an earlier transaction.
        let stale = rng.chance(1, 4) && at == 0;
        for pass in 0..if stale { 2 } else { 1 } {
            if stale && pass == 1 && rng.chance(1, 2) {
                // The old versions are revoked before the blocks are written again.
                let list: Vec<u64> = blocks[at..at + n].iter().copied().filter(|_| rng.chance(2, 3)).collect();
                log.push(j.revoke(seq, &list, rng));
                log.push(j.commit(seq, rng));
                seq = seq.wrapping_add(1);
            }
            if at == 0 && pass == 0 || rng.chance(1, 6) {
                // Revocations of blocks the log does not hold.
                let list: Vec<u64> = (0..rng.below(5)).map(|_| {
                    let k = rng.below(50);
                    img.nblocks + 3 + rng.below(1 << k)
                }).collect();
                log.push(j.revoke(seq, &list, rng));
            }
            let most = if rng.chance(1, 3) { usize::MAX } else { per + 1 };
            for chunk in blocks[at..at + n].chunks(j.max_tags(true).min(most)) {
                let data: Vec<(u64, Vec<u8>)> = chunk
                    .iter()
                    .map(|b| {
                        let mut d = img.get_block(*b);
                        if stale && pass == 0 {
                            d.iter_mut().for_each(|x| *x = rng.next() as u8 & 0x3f);
                        }
                        (*b, d)
                    })
                    .collect();
                let tags: Vec<(u64, &[u8])> = data.iter().map(|x| (x.0, &x.1[..])).collect();
                log.push(j.desc(seq, &tags, 0, rng));
                log.extend(data.into_iter().map(|x| x.1));
            }
            log.push(j.commit(seq, rng));
            seq = seq.wrapping_add(1);
        }
        at += n;
    }
    let slots = jblks.len() - 1;
    assert!(log.len() < slots, "src/adapters: the journal is too small: {}", log.len());
    let start = rng.below(slots as u64) as usize;
    let n = log.len();
    let jobj = |b: u64| Obj { kind: Kind::Jrn, pos: b * bs as u64, len: bs, ino: 8, generation: 0 };
    raw.insert("J.sb".into(), jobj(jblks[0]));
    for (i, d) in log.into_iter().enumerate() {
        let b = jblks[1 + (start + i) % slots];
        let kind = if d[..4] == [0xc0, 0x3b, 0x39, 0x98] { d[7] } else { 0 };
        let name = match (kind, raw.contains_key("J.1"), raw.contains_key("J.2")) {
            (1, false, _) => "J.1",
            (1, true, false) => "J.2",
            (2, _, _) if !raw.contains_key("J.3") => "J.3",
            (5, _, _) if rng.chance(1, 2) || !raw.contains_key("J.rev") => "J.rev",
            _ => "",
        };
        if !name.is_empty() {
            raw.insert(name.into(), jobj(b));
        }
        if i + 1 == n {
            raw.insert("J.last".into(), jobj(b));
        }
        img.set_block(jblks[1 + (start + i) % slots], d);
    }
    img.set_block(jblks[0], j.superblock(jblks.len() as u32, 1 + start as u32, base, J_64BIT | J_CSUM_V3 | J_REVOKE));
    for b in blocks {
        let mut d = vec![0; bs];
        if rng.chance(1, 2) {
            d.iter_mut().for_each(|x| *x = rng.next() as u8);
        }
        img.set_block(b, d);
    }
}

impl Std {
    /// Bytes of a symbolic path.
    pub fn path(&self, sym: &str) -> Vec<u8> {
        if sym.is_empty() {
            return b"/".to_vec();
        }
        let mut v = vec![];
        for c in sym.split('/').skip(1) {
            v.push(b'/');
            match self.names.get(c) {
                Some(n) => v.extend(n),
                None => v.extend(c.as_bytes()),
            }
        }
        v
    }
    /// What an operation on this node returns, when nothing is wrong.
    pub fn expect(&self, op: &str, node: &str) -> String {
        if op == "exists" {
            return (!node.is_empty()).to_string();
        }
        let n = &self.nodes[node];
        match op {
            "canonicalize" => format!("path {}", n.canon.escape_ascii()),
            "metadata" | "symlink_metadata" => self.meta(node),
            "read" | "read_to_string" => bytes(&n.data),
            "open" => format!("open {} {}", self.meta(node), 0),
            "head" => bytes(&n.data[..n.data.len().min(10)]),
            "tail" => bytes(&n.data[n.data.len().saturating_sub(5)..]),
            "read_link" => format!("path {}", n.data.escape_ascii()),
            "read_dir" => self.lists[node].iter().map(|(n, c)| self.entry(n, c)).collect::<Vec<_>>().join("|"),
            "list_meta" => {
                self.lists[node].iter().map(|(n, c)| format!("{} {}", self.entry(n, c), self.meta(c))).collect::<Vec<_>>().join("|")
            }
            _ => panic!("src/adapters: op {op}"),
        }
    }
    fn entry(&self, name: &[u8], child: &str) -> String {
        format!("{} {}", name.escape_ascii(), self.nodes[child].ty)
    }
    fn meta(&self, node: &str) -> String {
        let n = &self.nodes[node];
        meta(n.ty, n.spec.mode & 0o7777, n.spec.uid, n.spec.gid, n.spec.size)
    }
}
pub fn bytes(b: &[u8]) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    format!("bytes {} {h:x}", b.len())
}
fn meta(ty: &str, mode: u16, uid: u32, gid: u32, size: u64) -> String {
    format!("{ty} {mode:o} {uid} {gid} {size}")
}
pub fn tname(t: FileType) -> &'static str {
    match t {
        FileType::Directory => "dir",
        FileType::Regular => "reg",
        FileType::Symlink => "lnk",
        FileType::Fifo => "fifo",
        FileType::Socket => "sock",
        FileType::CharacterDevice => "chr",
        FileType::BlockDevice => "blk",
    }
}
pub fn real_meta(m: &ext4_view::Metadata) -> String {
    meta(tname(m.file_type()), m.mode(), m.uid(), m.gid(), m.len())
}
/// Run an operation; the canonical form of its result. `partial` receives
/// the entries listed before an error.
pub fn exec(fs: &Ext4, op: &str, path: &[u8], partial: &mut Vec<String>) -> Result<String, Ext4Error> {
    let p = ext4_view::Path::new(path);
    let mut buf = vec![0xCC; 64];
    Ok(match op {
        "canonicalize" => format!("path {}", fs.canonicalize(p)?.as_ref().escape_ascii()),
        "metadata" => real_meta(&fs.metadata(p)?),
        "symlink_metadata" => real_meta(&fs.symlink_metadata(p)?),
        "exists" => fs.exists(p)?.to_string(),
        "read" => bytes(&fs.read(p)?),
        "read_to_string" => bytes(fs.read_to_string(p)?.as_bytes()),
        "read_link" => format!("path {}", fs.read_link(p)?.as_ref().escape_ascii()),
        "open" => {
            let f = fs.open(p)?;
            format!("open {} {}", real_meta(f.metadata()), f.position())
        }
        "head" | "tail" => {
            let mut f = fs.open(p)?;
            let len = f.metadata().len();
            let want = if op == "head" { len.min(10) } else { len.min(5) } as usize;
            if op == "tail" {
                f.seek_to(len.saturating_sub(5))?;
            }
            let mut n = 0;
            while n < want {
                let k = f.read_bytes(&mut buf[n..want])?;
                if k == 0 {
                    break;
                }
                n += k;
            }
            bytes(&buf[..n])
        }
        "read_dir" | "list_meta" => {
            let mut it = fs.read_dir(p)?;
            loop {
                match it.next() {
                    None => break,
                    Some(Err(e)) => {
                        if let Some(x) = it.next() {
                            partial.push(format!("the iterator continues after an error: {x:?}"));
                        }
                        return Err(e);
                    }
                    Some(Ok(e)) => {
                        let ty = e.file_type()?;
                        let mut t = format!("{} {}", e.file_name().as_ref().escape_ascii(), tname(ty));
                        if op == "list_meta" {
                            t = format!("{t} {}", real_meta(&e.metadata()?));
                        }
                        partial.push(t);
                    }
                }
            }
            partial.join("|")
        }
        _ => panic!("src/adapters: op {op}"),
    })
}

//! C08: damaged images (Corrupt.tla) and extent graphs (PtrGraph.tla).
use super::*;
use crate::disk::SimDisk;
use crate::enc::*;
use crate::ensure;
use crate::stdfs::{self, Kind, Obj, Objs};
use crate::world::*;
use std::collections::BTreeSet;
use std::rc::Rc;

/// Reads that one operation may make, and memory beyond the data it returns.
const MAX_CALLS: u64 = 400_000;
const MAX_MEM: u64 = 64 << 20;

fn rec_offset(d: &[u8], rec: u64, csum: bool) -> usize {
    if rec == 9 && csum {
        return d.len() - 12;
    }
    let mut at = 0;
    for _ in 1..rec {
        let l = usize::from(g16(d, at + 4));
        let l = if d.len() == 65536 && (l == 0 || l == 65535) { 65536 } else { l };
        if l < 8 || at + l + 12 > d.len() - if csum { 12 } else { 0 } {
            break;
        }
        at += l;
    }
    at
}

struct Damage<'a> {
    cfg: &'a Cfg,
    objs: &'a Objs,
    raw: &'a Objs,
    note: Vec<String>,
    touched: BTreeSet<String>,
}
impl Damage<'_> {
    fn get(&self, n: &str) -> Option<&Obj> {
        self.objs.get(n).or_else(|| self.raw.get(n))
    }
    fn apply(&mut self, img: &mut Img, m: &Value, rng: &mut Rng) {
        let name = s(m, "obj");
        let Some(o) = self.get(name).cloned() else { return };
        let mut d = img.peek(o.pos, o.len);
        let bs = u64::from(self.cfg.bs);
        let (w, v) = (u(m, "w") as usize, s(m, "v"));
        let other = |rng: &mut Rng| {
            let all: Vec<&Obj> = self.objs.values().chain(self.raw.values()).filter(|x| x.len as u64 == bs).collect();
            rng.pick(&all).clone()
        };
        if w == 0 {
            match v {
                "zero" => d.fill(0),
                "ones" => d.fill(0xff),
                "rand" => d.iter_mut().for_each(|x| *x = rng.next() as u8),
                "copy" => {
                    let same: Vec<&Obj> = self
                        .objs
                        .values()
                        .chain(self.raw.values())
                        .filter(|x| x.len == o.len && x.pos != o.pos)
                        .collect();
                    if let Some(x) = (!same.is_empty()).then(|| rng.pick(&same)) {
                        d = img.peek(x.pos, x.len);
                    }
                }
                _ => {
                    let k = 1 + rng.below(11) as usize;
                    d.rotate_right(k);
                }
            }
            self.note.push(format!("{name} {v}"));
        } else {
            let csum = self.cfg.csum();
            let be = matches!(o.kind, Kind::Jrn);
            let base = if u(m, "rec") > 0 && be { last_tag(&d) } else if u(m, "rec") > 0 && matches!(o.kind, Kind::Leaf) { rec_offset(&d, u(m, "rec"), csum) } else { 0 };
            let at = base + u(m, "o") as usize;
            if at + w > d.len() {
                return;
            }
            let mut old = 0u64;
            for k in 0..w {
                let x = u64::from(d[at + if be { k } else { w - 1 - k }]);
                old = old << 8 | x;
            }
            let max = (1u64 << (8 * w)) - 1;
            let hi = max / 2 + 1;
            let new = match v {
                "max" => max,
                "max-1" => max - 1,
                "hi" => hi,
                "half" => hi - 1,
                "+1" => old.wrapping_add(1),
                "-1" => old.wrapping_sub(1),
                "x2" => old.wrapping_mul(2),
                "/2" => old / 2,
                "bs" => bs,
                "bs-1" => bs - 1,
                "bs+1" => bs + 1,
                "bs-4" => bs - 4,
                "bs-8" => bs - 8,
                "bs-12" => bs - 12,
                "self" => o.pos / bs,
                "child" => rng.pick(&[g32(&d, at.min(d.len() - 4)) as u64, 1, 2, u64::from(o.ino)]),
                "other" => other(rng).pos / bs,
                "end" => self.cfg.blocks,
                "end-1" => self.cfg.blocks - 1,
                "past" => self.cfg.blocks + 1 + rng.below(1000),
                "rand" => rng.next(),
                "top" => {
                    // The last blocks that 64 bits can address.
                    let x = ((1u128 << 64) / u128::from(bs)) as u64 - 1 - rng.below(3);
                    if matches!(o.kind, Kind::Gd(_)) && at == 8 && d.len() >= 64 {
                        p32(&mut d, 0x28, (x >> 32) as u32);
                    }
                    x
                }
                x => x.parse().unwrap_or_else(|_| panic!("src/adapters: value {x}")),
            } & max;
            for k in 0..w {
                d[at + if be { w - 1 - k } else { k }] = (new >> (8 * k)) as u8;
            }
            self.note.push(format!("{name}+{at:#x} {old:#x} -> {new:#x}"));
        }
        img.poke_fast(o.pos, &d);
        self.touched.insert(name.to_string());
    }
    /// Make the checksums of the damaged objects valid again.
    fn reseal(&self, img: &mut Img) {
        let c = self.cfg;
        for n in &self.touched {
            let o = self.get(n).unwrap();
            let mut d = img.peek(o.pos, o.len);
            let bl = Builder::new(c.clone());
            match o.kind {
                Kind::Sb => fix_sb_csum(&mut d),
                Kind::Gd(g) => fix_bgd_csum(&mut d, c.seed(), g),
                Kind::Inode => fix_inode_csum(&mut d, c.seed(), o.ino),
                Kind::Leaf => {
                    let n = d.len();
                    let seed = crc32c(crc32c(c.seed(), &o.ino.to_le_bytes()), &o.generation.to_le_bytes());
                    let x = crc32c(seed, &d[..n - 12]);
                    p32(&mut d, n - 4, x);
                }
                Kind::DxRoot | Kind::DxNode => {
                    let off = if matches!(o.kind, Kind::DxRoot) { 0x20 } else { 8 };
                    let cnt = usize::from(g16(&d, off + 2));
                    if off + 8 * cnt.max(usize::from(g16(&d, off))) <= d.len() - 8 {
                        bl.fix_dx_block(&mut d, off, o.ino, o.generation);
                    }
                }
                Kind::Ext => {
                    let t = 12 + 12 * usize::from(g16(&d, 4));
                    if t + 4 <= d.len() {
                        let seed = crc32c(crc32c(c.seed(), &o.ino.to_le_bytes()), &o.generation.to_le_bytes());
                        let x = crc32c(seed, &d[..t]);
                        p32(&mut d, t, x);
                    }
                }
                Kind::Ptr | Kind::Jrn => {}
            }
            img.poke_fast(o.pos, &d);
        }
    }
}

struct Probe<'a> {
    ctl: &'a CtlRef,
    note: String,
}
impl Probe<'_> {
    fn begin(&self) -> (u64, u64) {
        let mut c = self.ctl.borrow_mut();
        c.calls = 0;
        c.budget = Some(MAX_CALLS);
        crate::mem_reset();
        (c.calls, c.bytes)
    }
    /// Bounded reads and memory.
    fn end<T>(&self, what: &str, r: &Result<T, Ext4Error>, data: u64, cx: &mut Cx) -> Res {
        let peak = crate::mem_peak();
        let over = self.ctl.borrow().over_budget;
        ensure!(!over, "{}: {what}: more than {MAX_CALLS} reads", self.note);
        ensure!(peak <= MAX_MEM + data, "{}: {what}: {peak} bytes of memory for {data} bytes of data", self.note);
        if let Err(e) = r {
            ensure!(!format!("{e} {e:?}").is_empty(), "{}: {what}: no text", self.note);
            ensure!(class(e) != "Other", "{}: {what}: {e:?}", self.note);
        }
        cx.count(&format!("r_{}", rclass(r)));
        cx.count("operations");
        Ok(())
    }
}

/// Offset of the last tag of a descriptor block.
fn last_tag(d: &[u8]) -> usize {
    let mut at = 12;
    while at + 48 < d.len() && d[at + 7] & 8 == 0 {
        at += if d[at + 7] & 2 == 0 { 32 } else { 16 };
    }
    at
}

/// The std interfaces of a file handle.
fn probe_std(f: &mut ext4_view::File, t: &str, len: u64, p: &Probe<'_>, bs: u64, cx: &mut Cx) -> Res {
    use std::io::{Read, Seek, SeekFrom};
    let mut buf = vec![0; bs as usize];
    for to in [SeekFrom::End(0), SeekFrom::End(-1), SeekFrom::End(i64::MIN), SeekFrom::End(i64::MAX), SeekFrom::Current(i64::MAX), SeekFrom::Start(u64::MAX), SeekFrom::Current(1), SeekFrom::Current(-1), SeekFrom::Start(0), SeekFrom::Current(7)] {
        let at = f.position();
        let near = match to {
            SeekFrom::Start(x) => x,
            SeekFrom::End(x) => len.saturating_add_signed(x),
            SeekFrom::Current(x) => at.saturating_add_signed(x),
        };
        if near / bs > 4 << 20 && near < len {
            // Proportional to the file.
            continue;
        }
        p.begin();
        let r = f.seek(to);
        let what = format!("seek {t} {to:?} from {at}");
        let valid = match to {
            SeekFrom::Start(_) => true,
            SeekFrom::End(x) => len <= i64::MAX as u64 && (len as i64).checked_add(x).is_some_and(|y| y >= 0),
            SeekFrom::Current(x) => at <= i64::MAX as u64 && (at as i64).checked_add(x).is_some_and(|y| y >= 0),
        };
        match &r {
            Ok(n) => ensure!(valid && f.position() == *n, "{}: {what} gives {n}, position {}", p.note, f.position()),
            Err(_) => ensure!(f.position() == at, "{}: {what} fails and the position is {}", p.note, f.position()),
        }
        p.end(&what, &Ok(()), 0, cx)?;
        p.begin();
        let r = f.read(&mut buf);
        p.end(&format!("read {t} after {to:?}"), &Ok(()), 0, cx)?;
        if let Ok(n) = r {
            ensure!(n <= buf.len(), "{}: read returns {n}", p.note);
        }
    }
    let _ = format!("{f:?}");
    Ok(())
}

/// All operations on one path.
fn probe_path(fs: &Ext4, path: &[u8], p: &Probe<'_>, bs: u64, cx: &mut Cx) -> Res {
    let q = ext4_view::Path::new(path);
    let t = path.escape_ascii().to_string();
    p.begin();
    let m = fs.metadata(q);
    p.end(&format!("metadata {t}"), &m, 0, cx)?;
    let len = m.as_ref().map_or(0, |m| m.len());
    for op in ["canonicalize", "symlink_metadata", "exists", "read_link", "open", "read_dir", "list_meta", "read", "read_to_string"] {
        let mut data = 1 << 20;
        if op.starts_with("read") && op != "read_dir" {
            // Data this large exists, or at least is what the file claims:
            // not read here. Far larger than the memory: refused.
            if len > 32 << 20 && len < 1 << 36 {
                cx.count("large_skipped");
                continue;
            }
            data += if len < 1 << 36 { 3 * len } else { 0 };
        }
        p.begin();
        let r = stdfs::exec(fs, op, path, &mut vec![]);
        p.end(&format!("{op} {t}"), &r, data, cx)?;
    }
    p.begin();
    let f = fs.open(q);
    p.end(&format!("open {t}"), &f, 0, cx)?;
    if let Ok(mut f) = f {
        let mut buf = vec![0; bs as usize + 1];
        for pos in [0, len / 2, len.saturating_sub(1), len, len.saturating_add(1), u64::MAX, 1] {
            if pos / bs > 4 << 20 && pos < len {
                // Proportional to the file.
                continue;
            }
            p.begin();
            let r = f.seek_to(pos);
            p.end(&format!("seek {t} {pos}"), &r, 0, cx)?;
            for _ in 0..3 {
                p.begin();
                let r = f.read_bytes(&mut buf);
                p.end(&format!("read_bytes {t} {pos}"), &r, 0, cx)?;
                if let Ok(n) = r {
                    ensure!(n <= buf.len(), "{}: read_bytes returns {n}", p.note);
                }
            }
        }
    }
    if let (Ok(mut f), true) = (fs.open(q), cx.rng.chance(1, 3)) {
        probe_std(&mut f, &t, len, p, bs, cx)?;
    }
    // Through the entries of a directory.
    p.begin();
    let it = fs.read_dir(q);
    p.end(&format!("read_dir {t}"), &it, 0, cx)?;
    if let Ok(it) = it {
        let _ = format!("{it:?}");
        for (k, e) in it.enumerate() {
            if k > 200 {
                break;
            }
            p.begin();
            let ok = e.is_ok();
            if let Ok(e) = e {
                let _ = format!("{:?} {:?} {:?} {e:?}", e.path(), e.file_name(), e.file_type());
                let r = e.metadata();
                p.end(&format!("entry of {t}"), &r, 0, cx)?;
            }
            if !ok {
                break;
            }
        }
    }
    Ok(())
}

pub fn run(sc: &Value, cx: &mut Cx) -> Res {
    let muts = arr(sc, "muts");
    let mut rng = cx.rng.clone();
    // Small groups of damages need checksums that are absent or made valid.
    let p = loop {
        let p = rng.pick(PROFILES);
        // The largest blocks are slow; take them rarely.
        if !p.huge && (p.bs <= 4096 || rng.chance(1, 12)) {
            break p;
        }
    };
    let wants = |m: &Value| s(m, "obj").starts_with("J.");
    let journal = muts.iter().any(|m| wants(m) || s(m, "obj") == "I.journal") || rng.chance(1, 4);
    let seal = rng.chance(19, 20);
    let mut note = vec![];
    let mut r2 = rng.clone();
    let mut st = stdfs::build_hook(&p, &mut rng, journal, false, &mut |img, cfg, objs, raw| {
        let mut d = Damage { cfg, objs, raw, note: vec![], touched: BTreeSet::new() };
        for m in muts.iter().filter(|m| !wants(m)) {
            d.apply(img, m, &mut r2);
        }
        if cfg.csum() && seal {
            d.reseal(img);
        }
        note = d.note;
    });
    {
        let (img, cfg) = (Rc::get_mut(&mut st.img).unwrap(), &st.cfg);
        let mut d = Damage { cfg, objs: &st.objs, raw: &st.raw, note: vec![], touched: BTreeSet::new() };
        for m in muts.iter().filter(|m| wants(m)) {
            d.apply(img, m, &mut r2);
        }
        if seal {
            // The journal's own checksums.
            for n in d.touched.clone() {
                let o = &st.raw[&n];
                let mut x = img.peek(o.pos, o.len);
                let mut uuid = [0; 16];
                uuid.copy_from_slice(&img.peek(st.raw["J.sb"].pos + 0x30, 16));
                let j = crate::jenc::Jrn { bs: o.len, uuid };
                if n == "J.sb" {
                    j.fix_superblock(&mut x);
                } else if x[4..8] == [0, 0, 0, 2] {
                    j.commit_csum(&mut x);
                } else {
                    j.tail_csum(&mut x);
                }
                img.poke_fast(o.pos, &x);
            }
        }
        note.extend(d.note);
    }
    // The device ends after the last block in use.
    let last = st.img.blocks.keys().max().copied().unwrap_or(0);
    Rc::get_mut(&mut st.img).unwrap().nblocks = last + 200;
    let mut cut = None;
    for m in muts {
        if s(m, "obj") == "disk" {
            let total = (last + 1) * u64::from(st.img.bs);
            let k = u(m, "rec");
            cut = Some(match k {
                0 => 0,
                1 => 1024,
                2 => 1536,
                3 => 2047,
                4 => 2048,
                5 => total - 1,
                _ => rng.below(total / (1 << (12 - k))),
            });
            note.push(format!("the device ends at {}", cut.unwrap()));
        }
    }
    let note = format!("[{} {}{}] {}", p.name, if journal { "journal " } else { "" }, if seal { "" } else { "unsealed" }, note.join(", "));
    let (disk, ctl) = SimDisk::new(st.img.clone());
    ctl.borrow_mut().bad_range = cut.map(|c| (c, u64::MAX));
    let pr = Probe { ctl: &ctl, note };
    pr.begin();
    let fs = Ext4::load(Box::new(disk));
    pr.end("load", &fs, 0, cx)?;
    let Ok(fs) = fs else { return Ok(()) };
    cx.count("loaded");
    let _ = (fs.uuid(), format!("{:?} {:?} {fs:?}", fs.label(), fs.label().to_str()));
    let bs = u64::from(st.img.bs);
    let mut paths: Vec<&str> = vec!["", "/d", "/h", "/t", "/b", "/f", "/k", "/g", "/e", "/s", "/sl", "/dl", "/q", "/v", "/nx", "/d/x1", "/d/x2", "/d/x3", "/d/nx"];
    paths.extend(["/h/y1", "/h/y2", "/h/y3", "/h/n1", "/h/n3", "/t/z1", "/t/z2", "/t/z4", "/t/m1", "/t/m3", "/b/w1", "/b/w6", "/b/nx", "/s/x", "/d/../h/./../f"]);
    let long = "/d/..".repeat(900);
    paths.push(["f", "//", "/d/", "/f/", &long][rng.below(5) as usize]);
    // Mostly what the damage concerns, and a sample of the rest.
    let near = |q: &str| {
        muts.iter().any(|m| {
            let o = s(m, "obj");
            let n = o.split('.').nth(1).unwrap_or("");
            n == "root" || (!n.is_empty() && q.split('/').any(|c| c == n || (c.len() == 2 && stdfs::parent_of(c) == n)))
        })
    };
    for q in paths {
        if cx.thorough || near(q) || rng.chance(1, 4) {
            probe_path(&fs, &st.path(q), &pr, bs, cx)?;
        }
    }
    Ok(())
}

/// An inode whose extent tree is an arbitrary graph of nodes.
pub fn graph(sc: &Value, cx: &mut Cx) -> Res {
    let nodes = arr(sc, "nodes");
    // The entries of every node repeated until it is full.
    let fan = sc.get("fan").is_some();
    if cx.rng.chance(1, 2) {
        return dx_graph(nodes, fan, cx);
    }
    let p = loop {
        let p = cx.rng.pick(PROFILES);
        if !p.huge && p.bs <= 4096 {
            break p;
        }
    };
    let dir = cx.rng.chance(1, 3);
    let mut w = World::new(&p, cx.rng.clone());
    w.extents = true;
    let bs = w.bs();
    let ino = w.ino();
    let mut spec = InodeSpec::new(if dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 });
    spec.generation = cx.rng.next() as u32;
    spec.flags |= FL_EXTENTS;
    let seed = w.b.inode_seed(ino, spec.generation);
    let blk: Vec<u64> = nodes.iter().map(|_| w.b.alloc()).collect();
    let d0 = w.b.alloc_run(2);
    let text: Vec<u8> = (0..2 * bs).map(|k| b'a' + (k % 23) as u8).collect();
    for k in 0..2 {
        let mut c = text[(k * bs) as usize..((k + 1) * bs) as usize].to_vec();
        if dir {
            c = w.b.dir_block(&[Dirent { ino, name: format!("n{k}").into_bytes(), ftype: 2, pad: 0 }], ino, spec.generation);
        }
        w.b.img.set_block(d0 + k, c);
    }
    let mut want = LMap::default();
    for (k, n) in nodes.iter().enumerate() {
        let kids = arr(n, "kids");
        let depth = u(n, "d") as u16;
        let root = k == 0;
        let cap = if root { 4 } else { (bs as usize - 12) / 12 };
        let mut d = vec![0u8; if root { 60 } else { bs as usize }];
        p16(&mut d, 0, 0xf30a);
        let used = if fan && !kids.is_empty() { cap } else { kids.len().min(cap) };
        p16(&mut d, 2, used as u16);
        p16(&mut d, 4, cap as u16);
        p16(&mut d, 6, depth);
        for (i, e) in kids.iter().cycle().take(if kids.is_empty() { 0 } else { used }).enumerate() {
            let at = 12 + 12 * i;
            let c = u(e, "c") as usize;
            let inc = fan && u(&kids[1], "l") > 0;
            p32(&mut d, at, if inc { i as u32 } else { u(e, "l") as u32 });
            if depth == 0 {
                // One block; node numbers select which data.
                p16(&mut d, at + 4, 1);
                p32(&mut d, at + 8, d0 as u32 + (c % 2) as u32);
            } else {
                p32(&mut d, at + 4, if c == 0 { cx.rng.pick(&[0u32, u32::MAX, d0 as u32]) } else { blk[c - 1] as u32 });
            }
        }
        if root {
            spec.iblock.copy_from_slice(&d);
            // A node may also point at the block that holds the root's twin.
        }
        if !root {
            let t = 12 + 12 * cap;
            let c = crc32c(seed, &d[..t]);
            if t + 4 <= d.len() {
                p32(&mut d, t, c);
            }
        } else {
            d.resize(bs as usize, 0);
            p16(&mut d, 4, ((bs as usize - 12) / 12) as u16);
            let t = 12 + 12 * ((bs as usize - 12) / 12);
            let c = crc32c(seed, &d[..t]);
            if t + 4 <= d.len() {
                p32(&mut d, t, c);
            }
        }
        w.b.img.set_block(blk[k], d);
    }
    let nblk = 10;
    spec.size = nblk * bs;
    w.link(2, b"x", ino, if dir { 2 } else { 1 });
    w.b.put_inode(ino, &spec);
    // The map of a well-formed tree.
    let wf = b(sc, "wf");
    if wf {
        let mut at = 0;
        fn walk(nodes: &[Value], k: usize, out: &mut Vec<(u64, u64)>) {
            for e in arr(&nodes[k], "kids") {
                if u(&nodes[k], "d") == 0 {
                    out.push((u(e, "l"), u(e, "c") % 2));
                } else {
                    walk(nodes, u(e, "c") as usize - 1, out);
                }
            }
        }
        let mut out = vec![];
        walk(nodes, 0, &mut out);
        for (l, c) in out {
            want.push(l - at, None);
            want.push(1, Some(d0 + c));
            at = l + 1;
        }
        want.push(nblk - at, None);
    }
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let pr = Probe { ctl: &ctl, note: "graph".into() };
    probe_path(&fs, b"/x", &pr, bs, cx)?;
    probe_path(&fs, b"/x/n0", &pr, bs, cx)?;
    if wf && !dir {
        cx.count("wf");
        check_file(&FileCheck { fs: &fs, img: &img, path: "/x", lmap: &want, size: nblk * bs, cap: 1 << 20, probes: vec![bs, 3 * bs - 1] }, cx)?;
    }
    Ok(())
}

/// A directory whose index is an arbitrary graph of nodes.
fn dx_graph(nodes: &[Value], fan: bool, cx: &mut Cx) -> Res {
    let p = loop {
        let p = cx.rng.pick(PROFILES);
        if !p.huge && p.bs <= 4096 {
            break p;
        }
    };
    let mut w = World::new(&p, cx.rng.clone());
    w.extents = cx.rng.chance(3, 4);
    let ino = w.ino();
    let mut spec = InodeSpec::new(S_IFDIR | 0o755);
    spec.generation = cx.rng.next() as u32;
    spec.flags |= FL_INDEX;
    let generation = spec.generation;
    let n = nodes.len() as u32;
    // Blocks: the root, the other nodes, two leaves; beyond is outside.
    let levels = if !fan && cx.rng.chance(1, 8) { 255 } else { u(&nodes[0], "d") as u8 };
    // Every entry may hold the name.
    let h = dir_hash(if w.b.cfg.s_flags & 2 != 0 { 4 } else { 1 }, b"nothing", &w.b.cfg.hash_seed) & !1;
    let mut entries = |x: &Value| -> Vec<(u32, u32)> {
        let same = cx.rng.chance(1, 3);
        let mut v: Vec<(u32, u32)> = arr(x, "kids")
            .iter()
            .map(|e| {
                let c = match u(e, "c") as u32 {
                    0 => n + cx.rng.below(4) as u32,
                    c => c - 1,
                };
                let h = if same { 0 } else { (u(e, "l") as u32) << 28 };
                (h | cx.rng.below(2) as u32, c)
            })
            .collect();
        if cx.rng.chance(1, 2) {
            v.sort_by_key(|x| x.0);
        }
        v
    };
    let mut blocks = vec![];
    for (k, x) in nodes.iter().enumerate() {
        let mut e = entries(x);
        if fan && !e.is_empty() {
            let c = if k + 1 == nodes.len() { n } else { e[0].1 };
            e = (0..w.b.dx_limit(k == 0)).map(|i| (h | u32::from(i > 0), c)).collect();
        }
        let e = if e.is_empty() { vec![(0, n)] } else { e };
        blocks.push(if k == 0 {
            w.b.dx_root(ino, generation, 2, 1, levels, &e)
        } else {
            w.b.dx_node(ino, generation, &e)
        });
    }
    for k in 0..2 {
        let e = Dirent { ino, name: format!("n{k}").into_bytes(), ftype: 2, pad: 0 };
        blocks.push(w.b.dir_block(&[e], ino, generation));
    }
    w.link(2, b"x", ino, 2);
    w.put_dir_blocks(ino, spec, blocks);
    let (img, cfg) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let pr = Probe { ctl: &ctl, note: "index graph".into() };
    for q in ["/x", "/x/n0", "/x/n1", "/x/nothing", "/x/a", "/x/b/c", "/x/./.."] {
        probe_path(&fs, q.as_bytes(), &pr, u64::from(cfg.bs), cx)?;
    }
    cx.count("index_graphs");
    Ok(())
}

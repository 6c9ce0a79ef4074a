//! C04 / C16: directories.
use super::*;
use crate::ensure;
use crate::enc::*;
use crate::world::*;
use ext4_view::{DirEntry, FileType, Path, PathBuf};

/// Collision table produced offline: names sharing a hash under `SEED`.
pub const SEED: [u32; 4] = [0x1b2c_3d4e, 0x9182_7364, 0x5a6b_7c8d, 0xdeaf_beef];
pub struct Group {
    pub hash: u32,
    pub names: Vec<Vec<u8>>,
}
/// Groups for a hash version (1, 2: signed; 4, 5: unsigned) and name class.
pub fn groups(version: u8, ascii: bool) -> Vec<Group> {
    let base = if version > 3 { version - 3 } else { version };
    let mut v = vec![];
    for l in include_str!("../../data/collisions.txt").lines() {
        let mut it = l.split(' ');
        let ver: u8 = it.next().unwrap().parse().unwrap();
        let class = it.next().unwrap();
        if class == "bytes" {
            if ascii || ver != version {
                continue;
            }
        } else if !ascii || ver != base {
            continue;
        }
        let hash = u32::from_str_radix(it.next().unwrap(), 16).unwrap();
        let names = it
            .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())
            .collect();
        v.push(Group { hash, names });
    }
    v.sort_by_key(|g| g.hash);
    v
}

/// A random name of the given length; never "." or "..".
pub fn rand_name(rng: &mut Rng, len: usize) -> Vec<u8> {
    let class = rng.below(4);
    loop {
        let v: Vec<u8> = (0..len)
            .map(|_| match class {
                0 => b'a' + rng.below(26) as u8,
                1 => rng.pick(b".ab "),
                _ => {
                    let c = rng.range(1, 255) as u8;
                    if c == b'/' { 0x80 } else { c }
                }
            })
            .collect();
        if v != b"." && v != b".." {
            return v;
        }
    }
}
pub struct Target {
    pub ino: u32,
    pub ftype: u8,
    pub uid: u32,
}
/// A pool of link targets with distinguishable metadata.
pub fn pool(w: &mut World, n: u32) -> Vec<Target> {
    let mut v = vec![];
    for k in 0..n {
        let mode = [S_IFREG, S_IFREG, S_IFLNK, S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK][k as usize % 7] | 0o600;
        let uid = 0x0001_0000 * (k + 1) + 7;
        let ino = w.ino();
        let mut s = InodeSpec::new(mode);
        s.uid = uid;
        s.gid = k;
        s.generation = w.rng.next() as u32;
        if mode & 0xf000 == S_IFLNK {
            s.size = 4;
            s.iblock[..4].copy_from_slice(b"gone");
        }
        w.b.put_inode(ino, &s);
        v.push(Target { ino, ftype: ftype_of_mode(mode), uid });
    }
    v
}
pub fn ft(t: u8) -> FileType {
    match t {
        1 => FileType::Regular,
        2 => FileType::Directory,
        3 => FileType::CharacterDevice,
        4 => FileType::BlockDevice,
        5 => FileType::Fifo,
        6 => FileType::Socket,
        7 => FileType::Symlink,
        _ => panic!("src/adapters: file type"),
    }
}

/// One expected listing entry.
#[derive(Clone, Debug)]
pub struct Want {
    pub name: Vec<u8>,
    pub ftype: u8,
    pub uid: u32,
}

/// Encode a leaf block made of records (dirent, total length). Slack and unused
/// records contain the remains of earlier entries.
pub fn enc_leaf(b: &Builder, recs: &[(Dirent, usize)], ino: u32, generation: u32, rng: &mut Rng) -> Vec<u8> {
    let bs = b.bs();
    let mut d = vec![0u8; bs];
    let mut o = 0;
    for (e, len) in recs {
        // Remains of deleted entries in the slack.
        let mut s = o + rec_min(e.name.len());
        if rng.chance(2, 3) {
            while s + 12 <= o + len {
                let l = 12 + 4 * rng.below(4) as usize;
                let l = l.min(o + len - s);
                p32(&mut d, s, 12 + rng.below(20) as u32);
                p16(&mut d, s + 4, l as u16);
                d[s + 6] = (l - 8).min(1 + rng.below(8) as usize) as u8;
                d[s + 7] = 1;
                for i in s + 8..s + l {
                    d[i] = b'X';
                }
                s += l;
            }
        } else {
            for i in s..o + len {
                d[i] = rng.next() as u8;
            }
        }
        p32(&mut d, o, e.ino);
        p16(&mut d, o + 4, enc_rec_len(*len, b.cfg.bs, b.cfg.fill_seed));
        d[o + 6] = e.name.len() as u8;
        d[o + 7] = e.ftype;
        d[o + 8..o + 8 + e.name.len()].copy_from_slice(&e.name);
        o += len;
    }
    let end = if b.cfg.csum() { bs - 12 } else { bs };
    assert_eq!(o, end, "records do not tile the block");
    if b.cfg.csum() {
        b.fix_dir_leaf(&mut d, ino, generation);
    }
    d
}

/// How a directory is named when it is listed.
pub fn spellings(dir: &str) -> Vec<String> {
    vec![dir.to_string(), format!("{dir}/"), format!("/{dir}"), format!("/.{dir}"), format!("{dir}/.")]
}

pub fn bytes_path(dir: &str, name: &[u8]) -> PathBuf {
    let mut v = dir.as_bytes().to_vec();
    if !v.ends_with(b"/") {
        v.push(b'/');
    }
    v.extend_from_slice(name);
    PathBuf::try_from(v).unwrap_or_else(|e| panic!("src/adapters: bad path {e:?}"))
}

pub fn check_entry(fs: &Ext4, listed: &str, e: &DirEntry, w: &Want, cx: &mut Cx) -> Res {
    ensure!(
        e.file_name().as_ref() == &w.name[..],
        "entry name {:?} instead of {:?}",
        e.file_name(),
        String::from_utf8_lossy(&w.name)
    );
    let t = e.file_type().map_err(|x| format!("file_type: {x:?}"))?;
    ensure!(t == ft(w.ftype), "entry {:?}: file type {t:?} instead of {:?}", e.file_name(), ft(w.ftype));
    let want = bytes_path(listed, &w.name);
    ensure!(e.path() == want, "entry path {:?} instead of {:?}", e.path(), want);
    let m = e.metadata().map_err(|x| format!("entry metadata: {x:?}"))?;
    ensure!(m.uid() == w.uid, "entry {:?}: metadata of another inode (uid {:#x} instead of {:#x})", e.file_name(), m.uid(), w.uid);
    ensure!(m.file_type() == ft(w.ftype), "entry {:?}: metadata file type {:?}", e.file_name(), m.file_type());
    let by_path = fs.symlink_metadata(&want).map_err(|x| format!("symlink_metadata({want:?}): {x:?}"))?;
    ensure!(
        (by_path.uid(), by_path.gid(), by_path.mode(), by_path.len(), by_path.file_type())
            == (m.uid(), m.gid(), m.mode(), m.len(), m.file_type()),
        "entry {:?}: metadata differs from the metadata by path",
        e.file_name()
    );
    cx.count("entries_checked");
    Ok(())
}

/// List `listed` and compare. `stop` is the error class expected after `want`.
pub fn check_listing(fs: &Ext4, listed: &str, want: &[Want], stop: Option<&str>, meta: bool, cx: &mut Cx) -> Res {
    let mut it = fs.read_dir(listed).map_err(|e| format!("read_dir({listed}): {e:?}"))?;
    for (k, w) in want.iter().enumerate() {
        match it.next() {
            Some(Ok(e)) => {
                if meta {
                    check_entry(fs, listed, &e, w, cx)?;
                } else {
                    ensure!(
                        e.file_name().as_ref() == &w.name[..],
                        "entry {k}: name {:?} instead of {:?}",
                        e.file_name(),
                        String::from_utf8_lossy(&w.name)
                    );
                }
            }
            Some(Err(e)) => return Err(format!("entry {k} of {listed}: {e:?}")),
            None => return Err(format!("listing of {listed} ended after {k} of {} entries", want.len())),
        }
    }
    if let Some(c) = stop {
        match it.next() {
            Some(Err(e)) => ensure!(class(&e) == c, "listing failed with {e:?} instead of {c}"),
            Some(Ok(e)) => return Err(format!("extra entry {:?} instead of a {c} error", e.file_name())),
            None => return Err(format!("listing ended instead of failing with {c}")),
        }
    }
    for _ in 0..3 {
        match it.next() {
            None => {}
            Some(Ok(e)) => return Err(format!("entry {:?} after the end of the listing", e.file_name())),
            Some(Err(e)) => return Err(format!("error after the end of the listing: {e:?}")),
        }
    }
    cx.count("listings");
    Ok(())
}

pub fn check_lookup(fs: &Ext4, dir: &str, name: &[u8], want: Result<u32, &str>, cx: &mut Cx) -> Res {
    let p = bytes_path(dir, name);
    let r = fs.symlink_metadata(Path::new(&p));
    match want {
        Ok(uid) => match r {
            Ok(m) => ensure!(m.uid() == uid, "lookup of {p:?} reached another inode (uid {:#x} instead of {uid:#x})", m.uid()),
            Err(e) => return Err(format!("lookup of {p:?}: {e:?}")),
        },
        Err(c) => match r {
            Ok(m) => return Err(format!("lookup of {p:?} found uid {:#x} instead of failing with {c}", m.uid())),
            Err(e) => ensure!(class(&e) == c, "lookup of {p:?} failed with {e:?} instead of {c}"),
        },
    }
    cx.count("lookups");
    Ok(())
}

struct Rec {
    live: bool,
    len: usize,
    name: Vec<u8>,
    target: Option<usize>,
}

pub fn dirblock(sc: &Value, cx: &mut Cx) -> Res {
    let bad = &sc["bad"];
    let kind = s(bad, "kind");
    let p = loop {
        let p = cx.rng.pick(PROFILES);
        if (kind == "csum" && !p.csum) || p.huge {
            continue;
        }
        break p;
    };
    let mut w = World::new(&p, cx.rng.clone());
    w.extents = cx.rng.chance(1, 2);
    let nt = 14;
    let targets = pool(&mut w, nt);
    let root_uid = 0x00aa_0001;
    let dir_uid = 0x00aa_0002;
    w.dirs.get_mut(&2).unwrap().meta.uid = root_uid;
    let in_root = cx.rng.chance(1, 6);
    let dino = if in_root { 2 } else { w.mkdir(2, b"d") };
    w.symlink(2, b"ln", b"d");
    let dir = if in_root { "/" } else { "/d" };
    let generation = cx.rng.next() as u32;
    {
        let m = &mut w.dirs.get_mut(&dino).unwrap().meta;
        m.uid = if in_root { root_uid } else { dir_uid };
        m.generation = generation;
        m.mode = S_IFDIR | 0o700;
    }
    let bs = w.b.bs();
    let end = if w.b.cfg.csum() { bs - 12 } else { bs };
    let mut used = std::collections::BTreeSet::new();
    let blocks: Vec<Vec<Rec>> = arr(sc, "blocks")
        .iter()
        .enumerate()
        .map(|(bi, bl)| {
            let recs = bl.as_array().unwrap();
            let units: u64 = recs.iter().map(|r| u(r, "u")).sum();
            let unit = end / units as usize / 4 * 4;
            let mut o = 0;
            recs.iter()
                .enumerate()
                .map(|(ri, r)| {
                    let mut len = unit * u(r, "u") as usize;
                    if ri + 1 == recs.len() {
                        len = end - o;
                    } else if bi == 0 && ri == 0 {
                        // "." usually has a minimal record
                        if cx.rng.chance(3, 4) {
                            len = 12;
                        }
                    } else if cx.rng.chance(1, 4) {
                        // shrink to something irregular; the rest goes to the last record
                        len = 12 + 4 * cx.rng.below((len as u64 - 12) / 4 + 1) as usize;
                    }
                    o += len;
                    let fit = (len - 8).min(255);
                    let name = if bi == 0 && ri < 2 {
                        if ri == 0 { b".".to_vec() } else { b"..".to_vec() }
                    } else {
                        loop {
                            let n = match cx.rng.below(6) {
                                0 => fit,
                                1 => 1,
                                2 => 2,
                                3 => 3,
                                _ => 1 + cx.rng.below(fit as u64) as usize,
                            };
                            let nm = rand_name(&mut cx.rng, n.clamp(1, fit));
                            if used.insert(nm.clone()) {
                                break nm;
                            }
                        }
                    };
                    let target = if bi == 0 && ri < 2 { None } else { Some(cx.rng.below(u64::from(nt)) as usize) };
                    Rec { live: s(r, "k") == "l", len, name, target }
                })
                .collect()
        })
        .collect();
    let mut enc: Vec<Vec<u8>> = vec![];
    for (bi, bl) in blocks.iter().enumerate() {
        let recs: Vec<(Dirent, usize)> = bl
            .iter()
            .enumerate()
            .map(|(ri, r)| {
                let (ino, ft) = match r.target {
                    Some(t) => (targets[t].ino, targets[t].ftype),
                    None => (if ri == 0 { dino } else { 2 }, 2),
                };
                let e = Dirent { ino: if r.live { ino } else { 0 }, name: r.name.clone(), ftype: ft, pad: 0 };
                (e, r.len)
            })
            .collect();
        let mut d = enc_leaf(&w.b, &recs, dino, generation, &mut cx.rng);
        if u(bad, "b") == bi as u64 + 1 && matches!(kind, "rec" | "name" | "type") {
            let ri = u(bad, "r") as usize - 1;
            let o: usize = bl[..ri].iter().map(|r| r.len).sum();
            match kind {
                "rec" => p16(&mut d, o + 4, cx.rng.below(8) as u16),
                "type" => d[o + 7] = cx.rng.range(8, 255) as u8,
                _ => match cx.rng.below(3) {
                    0 => d[o + 6] = 0,
                    1 => d[o + 8 + cx.rng.below(bl[ri].name.len() as u64) as usize] = 0,
                    _ => d[o + 8 + cx.rng.below(bl[ri].name.len() as u64) as usize] = b'/',
                },
            }
            // A zero rec_len in a 64 KiB block means the whole block.
            if kind == "rec" && p.bs == 65536 && g16(&d, o + 4) == 0 {
                p16(&mut d, o + 4, 4);
            }
            if w.b.cfg.csum() {
                w.b.fix_dir_leaf(&mut d, dino, generation);
            }
        }
        enc.push(d);
    }
    // Keep the blocks apart so that a failing block does not affect its
    // neighbours through read-ahead.
    let mut phys = vec![];
    for d in enc {
        if kind == "io" {
            w.b.alloc_run(70);
        }
        let blk = w.b.alloc();
        w.b.img.set_block(blk, d);
        phys.push(blk);
    }
    if kind == "io" {
        w.b.alloc_run(70);
    }
    let mut spec = w.dirs[&dino].meta.clone();
    spec.size = phys.len() as u64 * w.bs();
    w.map_blocks(dino, &mut spec, &phys);
    w.b.put_inode(dino, &spec);
    if kind == "csum" {
        let blk = phys[u(bad, "b") as usize - 1];
        let mut d = w.b.img.get_block(blk);
        let at = if cx.rng.chance(1, 5) { bs - 4 + cx.rng.below(4) as usize } else { cx.rng.below(end as u64) as usize };
        d[at] ^= 1 << cx.rng.below(8);
        w.b.img.set_block(blk, d);
    }
    let (img, _) = w.finish();
    if kind == "io" {
        crate::jenc::set_journalize(None); // the failing block must be read from its home
    }
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let bsz = u64::from(img.bs);
    if kind == "io" {
        let blk = phys[u(bad, "b") as usize - 1];
        ctl.borrow_mut().bad_range = Some((blk * bsz, (blk + 1) * bsz));
    }
    // Expected listing, from the specification.
    let all = |upto: usize| -> Vec<Want> {
        arr(sc, "out")
            .iter()
            .take(upto)
            .map(|p| {
                let (b, r) = (p[0].as_u64().unwrap() as usize - 1, p[1].as_u64().unwrap() as usize - 1);
                let rec = &blocks[b][r];
                match rec.target {
                    Some(t) => Want { name: rec.name.clone(), ftype: targets[t].ftype, uid: targets[t].uid },
                    None => Want {
                        name: rec.name.clone(),
                        ftype: 2,
                        uid: if r == 0 && !in_root { dir_uid } else { root_uid },
                    },
                }
            })
            .collect()
    };
    let want = all(usize::MAX);
    let err = match kind {
        "none" => None,
        "io" => Some("Io"),
        _ => Some("Corrupt"),
    };
    ensure!(err.is_none() == (s(sc, "res") == "end"), "scenario");
    let mut lists = if in_root { vec!["/".to_string(), "/.".into(), "//".into(), "/..".into()] } else { spellings("/d") };
    if !in_root {
        lists.push("/ln".into());
        lists.push("/d/../d".into());
    }
    // In a damaged root directory only "/" can be named.
    // (and "/d/." needs the first entry of a damaged "/d").
    let listed = if in_root && err.is_some() {
        "/".to_string()
    } else if err.is_some() {
        cx.rng.pick(&["/d", "/d/", "//d", "/./d", "/ln"]).to_string()
    } else {
        cx.rng.pick(&lists)
    };
    // check_entry also looks the name up by path, which needs the records
    // before the damage only (linear directory).
    check_listing(&fs, &listed, &want, err, err.is_none() || !in_root, cx)?;
    // Lookups.
    let mut names: Vec<(Vec<u8>, bool, usize, usize)> = vec![];
    for (bi, bl) in blocks.iter().enumerate() {
        for (ri, r) in bl.iter().enumerate() {
            if r.target.is_some() {
                names.push((r.name.clone(), r.live, bi, ri));
            }
        }
    }
    for (n, live, bi, ri) in &names {
        let listed = want.iter().find(|x| x.name == *n);
        let rec = &blocks[*bi][*ri];
        let expect = match (listed, err) {
            (Some(x), _) => Ok(x.uid),
            (None, Some(c)) => Err(c),
            (None, None) => {
                ensure!(!live, "specification lost a live record");
                Err("NotFound")
            }
        };
        if let (Ok(uid), Some(t)) = (&expect, rec.target) {
            ensure!(*uid == targets[t].uid, "scenario mismatch");
        }
        check_lookup(&fs, dir, n, expect, cx)?;
    }
    let missing = err.unwrap_or("NotFound");
    for _ in 0..3 {
        let nl = 1 + cx.rng.below(255) as usize;
        let n = rand_name(&mut cx.rng, nl);
        if !used.contains(&n) {
            check_lookup(&fs, dir, &n, Err(missing), cx)?;
        }
    }
    // Near misses of an existing name.
    if let Some((n, ..)) = names.iter().find(|x| x.1) {
        let mut a = n.clone();
        a.pop();
        let mut b = n.clone();
        if b.len() < 255 {
            b.push(b'x');
        }
        let mut c = n.clone();
        let l = c.len() - 1;
        c[l] = if c[l] == b'q' { b'r' } else { b'q' };
        for m in [a, b, c] {
            if !m.is_empty() && m != b"." && m != b".." && !used.contains(&m) {
                check_lookup(&fs, dir, &m, Err(missing), cx)?;
            }
        }
    }
    if kind == "io" {
        // The failure has passed: everything is there.
        ctl.borrow_mut().bad_range = None;
        let n: usize = blocks.iter().flatten().filter(|r| r.live).count();
        let got: Vec<_> = fs.read_dir(dir).map_err(|e| format!("read_dir: {e:?}"))?.collect();
        ensure!(got.iter().all(|e| e.is_ok()) && got.len() == n, "listing after a passed failure: {} of {n} entries", got.len());
    }
    cx.count(&format!("damage_{kind}"));
    check_no_oob(&ctl)
}

struct Leaf {
    key: u32,
    /// Position in `hs` after which this leaf starts (None: refinement).
    cut: Option<u64>,
    names: Vec<(Vec<u8>, bool)>,
    room: usize,
}

pub fn htree(sc: &Value, cx: &mut Cx) -> Res {
    let hs: Vec<usize> = arr(sc, "hs").iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let live: Vec<bool> = arr(sc, "live").iter().map(|x| x.as_bool().unwrap()).collect();
    let cuts: Vec<u64> = arr(sc, "cuts").iter().map(|x| x.as_u64().unwrap()).collect();
    let keys: Vec<u64> = arr(sc, "keys").iter().map(|x| x.as_u64().unwrap()).collect();
    let low: Vec<u64> = arr(sc, "low").iter().map(|x| x.as_u64().unwrap()).collect();
    let mid: Vec<u64> = arr(sc, "mid").iter().map(|x| x.as_u64().unwrap()).collect();
    let depth = u(sc, "depth") as u8;
    let p = loop {
        let p = cx.rng.pick(PROFILES);
        if !p.huge {
            break p;
        }
    };
    let mut w0 = cx.rng.clone();
    let mut cfg = make_cfg(&p, &mut w0);
    // Hash: version, signedness, seed, name class.
    let alg = 1 + cx.rng.below(2) as u8;
    let unsigned = cx.rng.chance(1, 2);
    let version = alg + if unsigned { 3 } else { 0 };
    cfg.s_flags = if unsigned { 2 } else { 1 };
    let dup = hs.windows(2).any(|w| w[0] == w[1]);
    let nr = 1 + *hs.iter().max().unwrap_or(&1).max(&keys.iter().map(|k| (*k / 2) as usize).max().unwrap_or(1));
    let ascii = cx.rng.chance(1, 2);
    let fixed = dup || cx.rng.chance(1, 2);
    // (hash, names) of each rank 1..
    let mut ranks: Vec<(u32, Vec<Vec<u8>>)> = vec![];
    if fixed {
        cfg.hash_seed = SEED;
        let g = groups(version, ascii);
        // Sometimes end with the largest hash.
        let top = g.last().is_some_and(|x| x.hash == 0xffff_fffc) && cx.rng.chance(1, 3);
        let n = g.len() - usize::from(g.last().unwrap().hash == 0xffff_fffc);
        let mut idx = std::collections::BTreeSet::new();
        while idx.len() < nr {
            idx.insert(cx.rng.below(n as u64) as usize);
        }
        for i in idx {
            ranks.push((g[i].hash, g[i].names.clone()));
        }
        if top && !hs.is_empty() {
            let m = *hs.last().unwrap();
            ranks.truncate(m);
            let l = g.last().unwrap();
            ranks[m - 1] = (l.hash, l.names.clone());
            while ranks.len() < nr {
                ranks.push((u32::MAX, vec![]));
            }
            cx.count("largest_hash");
        }
    } else {
        if cx.rng.chance(1, 4) {
            cfg.hash_seed = [0; 4];
        } else if cx.rng.chance(1, 3) {
            // Some zero words only.
            for x in &mut cfg.hash_seed {
                if cx.rng.chance(1, 2) {
                    *x = 0;
                }
            }
        }
        let mut m = BTreeMap::new();
        while m.len() < nr {
            let len = match cx.rng.below(8) {
                0 => 255,
                1 => 32,
                2 => 33,
                3 => 16,
                4 => 64,
                _ => 1 + cx.rng.below(60) as usize,
            };
            let len = if p.bs == 1024 { len.min(100) } else { len };
            let n = rand_name(&mut cx.rng, len);
            m.entry(dir_hash(version, &n, &cfg.hash_seed)).or_insert(vec![n]);
        }
        ranks = m.into_iter().collect();
    }
    for (h, ns) in &mut ranks {
        // which members of the group are used varies
        let k = ns.len();
        for i in 0..k {
            let j = i + cx.rng.below((k - i) as u64) as usize;
            ns.swap(i, j);
        }
        for n in ns {
            assert_eq!(dir_hash(version, n, &cfg.hash_seed), *h, "collision table");
        }
    }
    let hseed = cfg.hash_seed;
    let mut w = World::with_cfg(cfg, w0);
    w.extents = cx.rng.chance(1, 2);
    let targets = pool(&mut w, 21);
    let root_uid = 0x00aa_0001;
    let dir_uid = 0x00aa_0002;
    let sub_uid = 0x00aa_0003;
    w.dirs.get_mut(&2).unwrap().meta.uid = root_uid;
    let dino = w.mkdir(2, b"d");
    let generation = cx.rng.next() as u32;
    {
        let m = &mut w.dirs.get_mut(&dino).unwrap().meta;
        m.uid = dir_uid;
        m.generation = generation;
    }
    let bs = w.b.bs();
    let end = if w.b.cfg.csum() { bs - 12 } else { bs };
    // Leaves.
    let mut leaves: Vec<Leaf> = vec![Leaf { key: 0, cut: Some(0), names: vec![], room: end }];
    let mut used_in = vec![0usize; ranks.len() + 1];
    let mut present: BTreeMap<Vec<u8>, bool> = BTreeMap::new();
    for (i, r) in hs.iter().enumerate() {
        let pos = i as u64; // position of this name is i+1; it starts a leaf if i is a cut
        if let Some(k) = cuts.iter().position(|c| *c == pos) {
            let key = keys[k];
            let rank = (key / 2) as usize;
            let h = ranks[rank - 1].0;
            let key = if key % 2 == 1 {
                h | 1
            } else {
                // anywhere above the previous rank's hash
                let lo = if rank >= 2 { ranks[rank - 2].0 } else { 0 };
                if cx.rng.chance(2, 3) { h } else { lo + 2 + 2 * cx.rng.below(u64::from(h - lo) / 2) as u32 }
            };
            leaves.push(Leaf { key, cut: Some(pos), names: vec![], room: end });
        }
        let name = ranks[*r - 1].1[used_in[*r]].clone();
        used_in[*r] += 1;
        present.insert(name.clone(), live[i]);
        let l = leaves.last_mut().unwrap();
        l.room -= rec_min(name.len());
        l.names.push((name, live[i]));
    }
    // Refine with extra leaves.
    let wide = match cx.rng.below(8) {
        0..=3 => 0,
        4..=6 => cx.rng.below(7),
        _ => {
            let lim = w.b.dx_limit(true) as u64 - 4 - leaves.len() as u64;
            // Hundreds or thousands of entries in one node.
            let full = bs <= 2048 && depth < 2 || bs <= 16384 && cx.rng.chance(4096, 2 * bs as u64);
            if full && lim > 511 {
                cx.count("more_than_511_entries");
            }
            if full { lim } else { cx.rng.below(lim.min(40)) }
        }
    };
    let hash = |n: &[u8]| dir_hash(version, n, &hseed);
    for _ in 0..wide {
        let h = (cx.rng.next() as u32) & !1;
        let j = leaves.iter().rposition(|l| l.key <= h).unwrap();
        if leaves[j].key == h || h == 0 || (j + 1 < leaves.len() && leaves[j + 1].key == h) {
            continue;
        }
        let (left, right): (Vec<_>, Vec<_>) = leaves[j].names.drain(..).partition(|n| hash(&n.0) < h);
        let room = |v: &Vec<(Vec<u8>, bool)>| end - v.iter().map(|n| rec_min(n.0.len())).sum::<usize>();
        leaves[j].room = room(&left);
        leaves[j].names = left;
        let room = room(&right);
        leaves.insert(j + 1, Leaf { key: h, cut: None, names: right, room });
    }
    // Filler names.
    let fill = match cx.rng.below(4) {
        0 => 0,
        1 => 200,
        _ => cx.rng.below(40),
    };
    for _ in 0..fill {
        let n = match cx.rng.below(5) {
            0 => 1 + cx.rng.below(255) as usize,
            1 => 1 + cx.rng.below(3) as usize,
            _ => 4 + cx.rng.below(20) as usize,
        };
        let nm = rand_name(&mut cx.rng, n);
        let h = hash(&nm);
        if present.contains_key(&nm) || ranks.iter().any(|r| r.0 == h) {
            continue;
        }
        let j = leaves.iter().rposition(|l| l.key <= h).unwrap();
        let need = rec_min(nm.len());
        if leaves[j].room >= need {
            leaves[j].room -= need;
            let lv = !cx.rng.chance(1, 4);
            present.insert(nm.clone(), lv);
            leaves[j].names.push((nm, lv));
        }
    }
    // Assign inodes. One live entry may be a subdirectory.
    let lives: Vec<Vec<u8>> = present.iter().filter(|x| *x.1).map(|x| x.0.clone()).collect();
    let sub = if !lives.is_empty() && cx.rng.chance(1, 2) { Some(cx.rng.pick(&lives)) } else { None };
    let mut ent: BTreeMap<Vec<u8>, (u32, u8, u32)> = BTreeMap::new();
    for n in present.keys() {
        let t = &targets[cx.rng.below(targets.len() as u64) as usize];
        ent.insert(n.clone(), (t.ino, t.ftype, t.uid));
    }
    if let Some(n) = &sub {
        let ino = w.ino();
        let mut meta = InodeSpec::new(S_IFDIR | 0o711);
        meta.uid = sub_uid;
        w.dirs.insert(ino, DirSpec { parent: dino, ents: vec![], meta });
        ent.insert(n.clone(), (ino, 2, sub_uid));
    }
    // Index structure: groups of leaves.
    let nleaf = leaves.len();
    let split = |items: &[usize], at: &[u64], leaves: &[Leaf]| -> Vec<Vec<usize>> {
        let mut v: Vec<Vec<usize>> = vec![];
        for (k, i) in items.iter().enumerate() {
            if k == 0 || leaves[*i].cut.is_some_and(|c| at.contains(&c)) {
                v.push(vec![]);
            }
            v.last_mut().unwrap().push(*i);
        }
        v
    };
    let all: Vec<usize> = (0..nleaf).collect();
    // level-1 nodes (just above the leaves) and level-2 nodes.
    let nodes1: Vec<Vec<usize>> = if depth >= 1 { split(&all, &low, &leaves) } else { vec![] };
    let firsts1: Vec<usize> = nodes1.iter().map(|n| n[0]).collect();
    let nodes2: Vec<Vec<usize>> = if depth >= 2 { split(&firsts1, &mid, &leaves) } else { vec![] };
    let nblk = 1 + nleaf + nodes1.len() + nodes2.len();
    // Logical block numbers: a random permutation of 1..
    let mut perm: Vec<u32> = (1..nblk as u32).collect();
    for i in 0..perm.len() {
        let j = i + cx.rng.below((perm.len() - i) as u64) as usize;
        perm.swap(i, j);
    }
    let leaf_blk = |i: usize| perm[i];
    let n1_blk = |i: usize| perm[nleaf + i];
    let n2_blk = |i: usize| perm[nleaf + nodes1.len() + i];
    let mut blocks: Vec<Vec<u8>> = vec![vec![]; nblk];
    let mut order: Vec<Vec<Want>> = vec![vec![]; nblk];
    for (i, l) in leaves.iter_mut().enumerate() {
        let k = l.names.len();
        for a in 0..k {
            let b = a + cx.rng.below((k - a) as u64) as usize;
            l.names.swap(a, b);
        }
        let mut recs: Vec<(Dirent, usize)> = vec![];
        let mut room = l.room;
        for (n, lv) in &l.names {
            let e = ent[n];
            let pad = if cx.rng.chance(1, 4) { 4 * cx.rng.below(room as u64 / 4 + 1) as usize } else { 0 };
            room -= pad;
            recs.push((
                Dirent { ino: if *lv { e.0 } else { 0 }, name: n.clone(), ftype: e.1, pad: 0 },
                rec_min(n.len()) + pad,
            ));
            if *lv {
                order[leaf_blk(i) as usize].push(Want { name: n.clone(), ftype: e.1, uid: e.2 });
            }
        }
        if let Some(l) = recs.last_mut() {
            l.1 += room;
        } else {
            recs.push((Dirent { ino: 0, name: vec![], ftype: 0, pad: 0 }, end));
        }
        // A leaf must not look like an index node: its first record is never
        // as long as the block when there is no checksum tail.
        blocks[leaf_blk(i) as usize] = enc_leaf(&w.b, &recs, dino, generation, &mut cx.rng);
    }
    for (i, n) in nodes1.iter().enumerate() {
        let e: Vec<(u32, u32)> = n.iter().map(|l| (leaves[*l].key, leaf_blk(*l))).collect();
        blocks[n1_blk(i) as usize] = w.b.dx_node(dino, generation, &e);
    }
    for (i, n) in nodes2.iter().enumerate() {
        let e: Vec<(u32, u32)> =
            n.iter().map(|f| (leaves[*f].key, n1_blk(firsts1.iter().position(|x| x == f).unwrap()))).collect();
        blocks[n2_blk(i) as usize] = w.b.dx_node(dino, generation, &e);
    }
    let root: Vec<(u32, u32)> = match depth {
        0 => all.iter().map(|l| (leaves[*l].key, leaf_blk(*l))).collect(),
        1 => nodes1.iter().enumerate().map(|(i, n)| (leaves[n[0]].key, n1_blk(i))).collect(),
        _ => nodes2.iter().enumerate().map(|(i, n)| (leaves[n[0]].key, n2_blk(i))).collect(),
    };
    ensure!(root.windows(2).all(|w| w[0].0 <= w[1].0), "scenario keys");
    blocks[0] = w.b.dx_root(dino, generation, 2, alg, depth, &root);
    order[0] = vec![
        Want { name: b".".to_vec(), ftype: 2, uid: dir_uid },
        Want { name: b"..".to_vec(), ftype: 2, uid: root_uid },
    ];
    let mut spec = w.dirs[&dino].meta.clone();
    spec.flags |= FL_INDEX;
    w.put_dir_blocks(dino, spec, blocks);
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let want: Vec<Want> = order.into_iter().flatten().collect();
    let listed = cx.rng.pick(&spellings("/d"));
    check_listing(&fs, &listed, &want, None, want.len() < 60, cx)?;
    // Lookups: the abstract names, then a sample of the fillers, then absent names.
    let mut special: Vec<&Vec<u8>> = vec![];
    for (r, (_, ns)) in ranks.iter().enumerate() {
        for (k, n) in ns.iter().enumerate() {
            if k < used_in.get(r + 1).copied().unwrap_or(0) {
                special.push(n);
            } else {
                // same hash, not in the directory
                check_lookup(&fs, "/d", n, Err("NotFound"), cx)?;
                cx.count("absent_same_hash");
            }
        }
    }
    for n in special {
        let e = if present[n] { Ok(ent[n].2) } else { Err("NotFound") };
        check_lookup(&fs, "/d", n, e, cx)?;
        cx.count("special_lookups");
    }
    for (n, lv) in &present {
        if present.len() < 40 || cx.rng.chance(1, 4) {
            check_lookup(&fs, "/d", n, if *lv { Ok(ent[n].2) } else { Err("NotFound") }, cx)?;
        }
    }
    for _ in 0..4 {
        let nl = 1 + cx.rng.below(255) as usize;
        let n = rand_name(&mut cx.rng, nl);
        if !present.contains_key(&n) {
            check_lookup(&fs, "/d", &n, Err("NotFound"), cx)?;
        }
    }
    // "." and ".." of the indexed directory.
    let m = fs.metadata("/d/.").map_err(|e| format!("/d/.: {e:?}"))?;
    ensure!(m.uid() == dir_uid, "/d/. is not /d");
    let m = fs.metadata("/d/..").map_err(|e| format!("/d/..: {e:?}"))?;
    ensure!(m.uid() == root_uid, "/d/.. is not /");
    if let Some(n) = &sub {
        let mut pb = bytes_path("/d", n);
        pb.push("..");
        let m = fs.metadata(&pb).map_err(|e| format!("{pb:?}: {e:?}"))?;
        ensure!(m.uid() == dir_uid, "{pb:?} is not /d");
        let other = lives.iter().find(|x| *x != n && ent[*x].1 != 2);
        if let Some(o) = other {
            pb.push(o.as_slice());
            let m = fs.symlink_metadata(&pb).map_err(|e| format!("{pb:?}: {e:?}"))?;
            ensure!(m.uid() == ent[o].2, "{pb:?} reached another inode");
        }
    }
    cx.count(&format!("depth_{depth}"));
    check_no_oob(&ctl)
}

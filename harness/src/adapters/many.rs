//! C06, C17: histories of Many.tla: many objects whose numbers coincide under
//! truncation, many live handles, long histories.
use super::*;
use crate::enc::*;
use crate::ensure;
use crate::world::*;
use ext4_view::{File, FileType, Metadata, Path, ReadDir};
use std::collections::HashMap;

#[derive(Clone, PartialEq)]
enum Ty {
    File,
    Link,
    Dir,
}
struct Obj {
    ino: u32,
    ty: Ty,
    spec: InodeSpec,
    lmap: LMap,
    target: Vec<u8>,
    /// name, object of each entry after `.` and `..`
    list: Vec<(Vec<u8>, (u64, u64))>,
}
enum H {
    F { f: File, o: (u64, u64) },
    D { d: ReadDir, o: (u64, u64), n: usize, via: Vec<u8> },
    Closed,
}

/// Blocks for the aliases of an object: the same low bits where possible.
fn place(w: &mut World, base: u64, b: u64, stride: u64, n: u64) -> u64 {
    let p = base + b * stride;
    if b > 0 && p + n < w.b.cfg.blocks && (p..p + n).all(|x| !w.b.reserved.contains(&x) && !w.b.is_table(x)) {
        for x in p..p + n {
            w.b.reserved.insert(x);
        }
        return p;
    }
    w.b.alloc_run(n)
}

fn check_meta(m: &Metadata, o: &Obj, what: &str) -> Res {
    let t = match o.ty {
        Ty::File => FileType::Regular,
        Ty::Link => FileType::Symlink,
        Ty::Dir => FileType::Directory,
    };
    ensure!(m.file_type() == t, "{what}: type {:?} instead of {t:?}", m.file_type());
    ensure!(o.ty == Ty::Dir || m.len() == o.spec.size, "{what}: length {} instead of {}", m.len(), o.spec.size);
    ensure!(m.mode() == o.spec.mode & 0xfff, "{what}: mode {:o} instead of {:o}", m.mode(), o.spec.mode & 0xfff);
    ensure!((m.uid(), m.gid()) == (o.spec.uid, o.spec.gid), "{what}: owner {:?} instead of {:?}", (m.uid(), m.gid()), (o.spec.uid, o.spec.gid));
    Ok(())
}
fn content(img: &Img, o: &Obj, pos: u64, n: usize) -> Vec<u8> {
    let n = n.min(o.spec.size.saturating_sub(pos) as usize);
    let mut v = vec![0; n];
    o.lmap.bytes(img, pos, &mut v);
    v
}

pub fn run(sc: &Value, cx: &mut Cx) -> Res {
    let (na, nb) = (u(sc, "a"), u(sc, "b"));
    let (mut p, max) = match cx.rng.below(6) {
        0 => (profile("1k-csum-64"), 8 * 2048),
        1 => (profile("4k-csum-64-seed"), 8 * 32768),
        2 => (profile("2k-csum-32"), 8 * 4096),
        3 => (profile("4k-desc128-i512"), 8 * 2048),
        // Inode numbers may coincide in their low 16 bits.
        4 => (profile("64k-csum-64"), 8 * 131_072),
        _ => (profile("64k-huge"), 256 * 8),
    };
    if !p.huge {
        p.groups = 8;
        p.ipg = max / 8;
    }
    let mut w = World::new(&p, cx.rng.clone());
    cx.rng.next();
    // The strides between aliases.
    let first = 12 + cx.rng.below(40) as u32;
    let bits = 31 - ((max - first - 64) / (nb as u32)).leading_zeros();
    let istride = 1u32 << if bits >= 16 && cx.rng.chance(1, 3) { 16 } else { cx.rng.range(4, u64::from(bits)) };
    let roots: Vec<u32> = (0..nb as u32).map(|b| first + 1 + (na as u32 + 2) + b * istride.max(4 * na as u32)).collect();
    let room = (w.b.cfg.blocks - w.b.next_block - 4096) / (nb + 1);
    let top = 63 - u64::from(room.leading_zeros());
    let bstride = 1u64 << if top >= 32 && cx.rng.chance(1, 2) { 32 } else { cx.rng.range(6.min(top), top) };
    if istride >= 1 << 16 {
        cx.count("inode_alias_16bit");
    }
    if bstride >= 1 << 32 {
        cx.count("block_alias_32bit");
    }
    // d0, d1, ...: one directory per b, all with the same names.
    let mut used: std::collections::HashSet<u32> = (0..nb as u32).flat_map(|b| (0..na as u32).map(move |a| (a, b))).map(|(a, b)| first + a + b * istride).collect();
    let mut dirs = vec![];
    for b in 0..nb {
        let mut ino = roots[b as usize];
        while !used.insert(ino) {
            ino += 1;
        }
        w.link(2, format!("d{b}").as_bytes(), ino, 2);
        w.dirs.insert(ino, DirSpec { parent: 2, ents: vec![], meta: InodeSpec::new(S_IFDIR | 0o755) });
        dirs.push(ino);
    }
    let bs = w.bs();
    let mut objs: HashMap<(u64, u64), Obj> = HashMap::new();
    for a in 0..na {
        let gen0 = w.rng.next() as u32;
        let same_gen = w.rng.chance(1, 2);
        let n = match a % 8 {
            4 => 12 + w.rng.below(6),
            7 => 5 + w.rng.below(6),
            _ => 1 + w.rng.below(4),
        };
        let slack = w.rng.below(bs);
        let mut base = 0;
        for b in 0..nb {
            let ino = first + a as u32 + b as u32 * istride;
            let mode = match a % 8 {
                5 => S_IFLNK,
                6 => S_IFDIR,
                _ => S_IFREG,
            };
            let mut spec = InodeSpec::new(mode | (w.rng.next() as u16 & 0xfff));
            spec.uid = w.rng.next() as u32;
            spec.gid = w.rng.next() as u32;
            spec.generation = if same_gen { gen0 } else { w.rng.next() as u32 };
            let mut o = Obj { ino, ty: Ty::File, spec: spec.clone(), lmap: LMap::default(), target: vec![], list: vec![] };
            match a % 8 {
                5 => {
                    // Same length for every alias, but its own target.
                    o.ty = Ty::Link;
                    let mut t = b"./".repeat(10 + a as usize * 3);
                    t.extend(format!("n{}", (a + b) % 5).as_bytes());
                    if t.len() < 60 {
                        spec.size = t.len() as u64;
                        spec.iblock[..t.len()].copy_from_slice(&t);
                    } else {
                        let blk = if b == 0 { base = w.b.alloc(); base } else { place(&mut w, base, b, bstride, 1) };
                        let mut d = t.clone();
                        d.resize(bs as usize, 0x2f);
                        w.b.img.set_block(blk, d);
                        spec.size = t.len() as u64;
                        let exts = [Ext { lblk: 0, len: 1, phys: blk, unwritten: false }];
                        w.map_extents(ino, &mut spec, &exts);
                    }
                    o.target = t;
                }
                6 => {
                    o.ty = Ty::Dir;
                    let mut ents = vec![];
                    for k in 0..6u64 {
                        let c = ((a + 1 + k) % 5, (b * (1 + k) + a) % nb);
                        let name = format!("e{k}").into_bytes();
                        let ftype = if c.0 % 8 == 5 { 7 } else { 1 };
                        ents.push(Dirent { ino: first + c.0 as u32 + c.1 as u32 * istride, name: name.clone(), ftype, pad: 0 });
                        o.list.push((name, c));
                    }
                    w.dirs.insert(ino, DirSpec { parent: dirs[b as usize], ents, meta: spec.clone() });
                }
                x => {
                    let s = if b == 0 { base = w.b.alloc_run(n); base } else { place(&mut w, base, b, bstride, n) };
                    spec.size = n * bs - slack;
                    if x == 4 && s + n < 1 << 32 {
                        let pairs: Vec<_> = (0..n).map(|k| (k, s + k)).collect();
                        w.map_blockmap(&mut spec, &pairs);
                    } else if x == 7 {
                        // Single-block extents in reverse physical order: a tree.
                        let exts: Vec<_> = (0..n).map(|k| Ext { lblk: k as u32, len: 1, phys: s + n - 1 - k, unwritten: false }).collect();
                        w.map_extents(ino, &mut spec, &exts);
                    } else {
                        w.map_extents(ino, &mut spec, &[Ext { lblk: 0, len: n as u16, phys: s, unwritten: false }]);
                    }
                    if x == 7 {
                        for k in 0..n {
                            o.lmap.push(1, Some(s + n - 1 - k));
                        }
                    } else {
                        o.lmap.push(n, Some(s));
                    }
                }
            }
            o.spec = spec.clone();
            if o.ty != Ty::Dir {
                w.b.put_inode(ino, &spec);
            }
            w.link(dirs[b as usize], format!("n{a}").as_bytes(), ino, ftype_of_mode(spec.mode));
            objs.insert((a, b), o);
        }
        // A second way to reach it.
        for (b, d) in dirs.clone().into_iter().enumerate() {
            let mut l = InodeSpec::new(S_IFLNK | 0o777);
            let t = format!("../d{b}/n{a}").into_bytes();
            l.size = t.len() as u64;
            l.iblock[..t.len()].copy_from_slice(&t);
            let mut ino = first + na as u32;
            while !used.insert(ino) {
                ino += 1;
            }
            w.b.put_inode(ino, &l);
            w.link(d, format!("l{a}").as_bytes(), ino, 7);
        }
    }
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let clones = [fs.clone(), fs.clone(), fs];
    let mut hs: Vec<H> = vec![H::Closed];
    let mut live = 0u64;
    let mut most = 0u64;
    let follow = |o: (u64, u64)| if objs[&o].ty == Ty::Link { ((o.0 + o.1) % 5, o.1) } else { o };
    for (q, r) in arr(sc, "hist").iter().enumerate() {
        let (op, x, y) = (r[0].as_str().unwrap(), r[1].as_u64().unwrap(), r[2].as_u64().unwrap());
        let fs = &clones[cx.rng.below(3) as usize];
        let o = (x, y);
        let direct = format!("/d{y}/n{x}").into_bytes();
        let linked = format!("/d{y}/l{x}").into_bytes();
        let via = if cx.rng.chance(1, 3) { linked.clone() } else { direct.clone() };
        let what = format!("step {q}: {op} {}", String::from_utf8_lossy(&via));
        let e = |e: Ext4Error| format!("{what}: {e:?}");
        match op {
            "stat" => {
                cx.count("stats");
                let ob = &objs[&o];
                let to = &objs[&follow(o)];
                match cx.rng.below(8) {
                    0 | 1 => check_meta(&fs.metadata(Path::new(&via)).map_err(e)?, to, &what)?,
                    2 => check_meta(&fs.symlink_metadata(Path::new(&direct)).map_err(e)?, ob, &what)?,
                    3 => {
                        let m = fs.symlink_metadata(Path::new(&linked)).map_err(e)?;
                        ensure!(m.file_type() == FileType::Symlink && m.mode() == 0o777, "{what}: symlink_metadata of the link: {m:?}");
                        let t = fs.read_link(Path::new(&linked)).map_err(e)?;
                        ensure!(t.as_ref() == format!("../d{y}/n{x}").as_bytes(), "{what}: read_link of the link: {t:?}");
                    }
                    4 => {
                        let c = fs.canonicalize(Path::new(&via)).map_err(e)?;
                        let f = follow(o);
                        ensure!(c.as_ref() == format!("/d{}/n{}", f.1, f.0).as_bytes(), "{what}: canonicalize: {c:?}");
                    }
                    5 if ob.ty == Ty::Link => {
                        let t = fs.read_link(Path::new(&direct)).map_err(e)?;
                        ensure!(t.as_ref() == &ob.target[..], "{what}: read_link: {t:?}");
                    }
                    5 if ob.ty == Ty::Dir => {
                        let mut n = 0;
                        for en in fs.read_dir(Path::new(&via)).map_err(e)? {
                            let en = en.map_err(e)?;
                            if n >= 2 {
                                let (name, c) = ob.list.get(n - 2).ok_or_else(|| format!("{what}: too many entries"))?;
                                ensure!(en.file_name().as_ref() == &name[..], "{what}: entry {n} is {:?}", en.file_name());
                                check_meta(&en.metadata().map_err(e)?, &objs[c], &what)?;
                            }
                            n += 1;
                        }
                        ensure!(n == ob.list.len() + 2, "{what}: {n} entries");
                    }
                    6 if to.ty == Ty::File => {
                        let d = fs.read(Path::new(&via)).map_err(e)?;
                        let want = content(&img, to, 0, usize::MAX);
                        ensure!(d == want, "{what}: {}", diff(&d, &want));
                    }
                    6 => {
                        // A name that is not there.
                        let mut p = format!("/d{y}/n{}", 16 + x).into_bytes();
                        ensure!(!fs.exists(Path::new(&p)).map_err(e)?, "{what}: exists");
                        p.push(b'/');
                        ensure!(matches!(fs.metadata(Path::new(&p)), Err(Ext4Error::NotFound)), "{what}: metadata of a missing name");
                    }
                    _ => ensure!(fs.exists(Path::new(&via)).map_err(e)?, "{what}: exists() is false"),
                }
            }
            "open" => {
                cx.count("opens");
                let to = follow(o);
                let ob = &objs[&to];
                live += 1;
                most = most.max(live);
                hs.push(if ob.ty == Ty::Dir {
                    H::D { d: fs.read_dir(Path::new(&via)).map_err(e)?, o: to, n: 0, via }
                } else {
                    let f = fs.open(Path::new(&via)).map_err(e)?;
                    check_meta(f.metadata(), ob, &what)?;
                    ensure!(f.position() == 0, "{what}: a new file is at {}", f.position());
                    H::F { f, o: to }
                });
            }
            "close" => {
                live -= 1;
                hs[x as usize] = H::Closed;
            }
            _ => match &mut hs[x as usize] {
                H::Closed => return Err(format!("adapter: step on a closed handle {x}")),
                H::F { f, o } => {
                    cx.count("reads");
                    let ob = &objs[o];
                    let what = format!("step {q}: handle {x} on {o:?} (inode {})", ob.ino);
                    let mut pos = f.position();
                    if cx.rng.chance(1, 3) {
                        pos = cx.rng.below(ob.spec.size + 2);
                        f.seek_to(pos).map_err(|e| format!("{what}: {e:?}"))?;
                    }
                    let mut buf = vec![0xCC; cx.rng.range(1, 2 * bs) as usize];
                    let n = f.read_bytes(&mut buf).map_err(|e| format!("{what}: {e:?}"))?;
                    let want = content(&img, ob, pos, n);
                    ensure!(n == want.len() && (n > 0 || pos >= ob.spec.size), "{what}: {n} bytes at {pos} of {}", ob.spec.size);
                    ensure!(buf[..n] == want[..], "{what} at {pos}: {}", diff(&buf[..n], &want));
                    ensure!(f.position() == pos + n as u64, "{what}: position {}", f.position());
                    check_meta(f.metadata(), ob, &what)?;
                }
                H::D { d, o, n, via } => {
                    cx.count("nexts");
                    let ob = &objs[o];
                    let what = format!("step {q}: iterator {x} on {o:?} (inode {}) at {n}", ob.ino);
                    match d.next() {
                        None => {
                            ensure!(*n == ob.list.len() + 2, "{what}: ended");
                            *n = 0;
                            *d = fs.read_dir(Path::new(&*via)).map_err(|e| format!("{what}: {e:?}"))?;
                        }
                        Some(en) => {
                            let en = en.map_err(|e| format!("{what}: {e:?}"))?;
                            let name: &[u8] = match *n {
                                0 => b".",
                                1 => b"..",
                                k => &ob.list.get(k - 2).ok_or_else(|| format!("{what}: too many entries"))?.0,
                            };
                            ensure!(en.file_name().as_ref() == name, "{what}: entry {:?}", en.file_name());
                            let mut full = via.clone();
                            full.push(b'/');
                            full.extend(name);
                            ensure!(en.path().as_ref() == full, "{what}: path {:?}", en.path());
                            if *n >= 2 {
                                let c = &objs[&ob.list[*n - 2].1];
                                check_meta(&en.metadata().map_err(|e| format!("{what}: {e:?}"))?, c, &what)?;
                            }
                            *n += 1;
                        }
                    }
                }
            },
        }
    }
    if most >= 256 {
        cx.count("histories_with_256_handles");
    }
    check_no_oob(&ctl)
}

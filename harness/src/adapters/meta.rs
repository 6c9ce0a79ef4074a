//! C10: inode geometry and metadata.
use super::*;
use crate::enc::*;
use crate::ensure;
use crate::world::*;
use ext4_view::{FileType, Metadata};

pub fn mode_bits(ty: &str) -> u16 {
    match ty {
        "reg" => S_IFREG,
        "dir" => S_IFDIR,
        "lnk" => S_IFLNK,
        "fifo" => S_IFIFO,
        "sock" => S_IFSOCK,
        "chr" => S_IFCHR,
        "blk" => S_IFBLK,
        _ => panic!("src/adapters: type {ty}"),
    }
}
pub fn file_type(ty: &str) -> FileType {
    match ty {
        "reg" => FileType::Regular,
        "dir" => FileType::Directory,
        "lnk" => FileType::Symlink,
        "fifo" => FileType::Fifo,
        "sock" => FileType::Socket,
        "chr" => FileType::CharacterDevice,
        "blk" => FileType::BlockDevice,
        _ => panic!("src/adapters: type {ty}"),
    }
}
fn id(c: &str, rng: &mut Rng) -> u32 {
    match c {
        "zero" => 0,
        "lomax" => 0xffff,
        "hi" => 0x1_0000,
        "mixed" => 0x1234_0000 | rng.next() as u32 & 0xff_ffff,
        _ => u32::MAX,
    }
}
fn size(c: &str, bs: u64) -> u64 {
    match c {
        "zero" => 0,
        "one" => 1,
        "lomax" => 0xffff_ffff,
        "hi1" => 0x1_0000_0000,
        "hi5" => 0x3_0000_0005,
        // the largest number of blocks a file can have
        _ => 0xffff_ffff * bs,
    }
}
/// Does `m` describe an inode with this type, permissions, owner, group and size?
pub fn check_meta(m: &Metadata, ty: &str, s: &InodeSpec, what: &str) -> Res {
    ensure!(m.file_type() == file_type(ty), "{what}: type {:?} instead of {ty}", m.file_type());
    ensure!(m.is_dir() == (ty == "dir") && m.is_symlink() == (ty == "lnk"), "{what}: is_dir/is_symlink wrong for {ty}");
    ensure!(m.mode() == s.mode & 0o7777, "{what}: mode {:o} instead of {:o}", m.mode(), s.mode & 0o7777);
    ensure!(m.uid() == s.uid, "{what}: uid {:#x} instead of {:#x}", m.uid(), s.uid);
    ensure!(m.gid() == s.gid, "{what}: gid {:#x} instead of {:#x}", m.gid(), s.gid);
    ensure!(m.len() == s.size, "{what}: size {:#x} instead of {:#x}", m.len(), s.size);
    let t = m.file_type();
    let preds = [
        t.is_regular_file(), t.is_dir(), t.is_symlink(), t.is_fifo(), t.is_socket(), t.is_char_dev(), t.is_block_dev(),
    ];
    let names = ["reg", "dir", "lnk", "fifo", "sock", "chr", "blk"];
    for (p, n) in preds.iter().zip(names) {
        ensure!(*p == (n == ty), "{what}: file type predicate for {n} is {p} on {ty}");
    }
    Ok(())
}

pub fn geometry(sc: &Value, cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    let g = &sc["geo"];
    let (bs, isz, dsz, groups, ipg) =
        (u(g, "bs") as u32, u(g, "isz") as u16, u(g, "dsz") as u16, u(g, "groups") as u32, u(g, "ipg") as u32);
    let csum = b(g, "csum");
    let p = Profile {
        name: "geometry", bs, csum, gdt_csum: rng.chance(1, 3), is64: dsz >= 64, desc_size: dsz, inode_size: isz,
        seed_in_sb: rng.chance(1, 2), groups: 1, ipg, huge: false,
    };
    let mut cfg = make_cfg(&p, &mut rng);
    cfg.groups = groups;
    let itb = (u64::from(ipg) * u64::from(isz)).div_ceil(u64::from(bs));
    // With very many groups, only the tables of some of them are given.
    let near: Vec<(usize, u64)> = match sc.get("near") {
        Some(v) => v.as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap())).collect(),
        None => vec![],
    };
    let tables: Vec<u64> = if near.is_empty() {
        arr(sc, "tables").iter().map(|x| x.as_u64().unwrap()).collect()
    } else {
        let mut t = vec![near[0].1; groups as usize];
        for (k, o) in &near {
            t[*k] = *o;
        }
        cx.count("wide");
        t
    };
    let span = tables.iter().max().unwrap() + itb + 2000;
    // Group size: ordinary, or the large ones of a bigalloc filesystem.
    let high = dsz >= 64 && rng.chance(1, 2);
    let mut bpg = u64::from(bs) * 8;
    if high {
        bpg = ((1u64 << 33) / u64::from(groups)).clamp(bpg, 1 << 31);
        cfg.ro_compat |= 0x200;
    }
    while bpg * u64::from(groups) < span + 4000 {
        bpg *= 2;
    }
    cfg.bpg = bpg as u32;
    let first = u64::from(cfg.first_data_block);
    let full = bpg * u64::from(groups) + first;
    // The last group may be partial.
    let room = full - bpg;
    let cut = rng.pick(&[0, 1, bpg - 1, bpg / 2]);
    let blocks = if full - cut > span + 4000 { full - cut } else { full };
    let _ = room;
    cfg.blocks = blocks;
    let after = cfg.after_gdt();
    let mut base = after + 40;
    if high && blocks > (1 << 32) + span + 4000 {
        base = rng.pick(&[(1 << 32) - 1, 1 << 32, blocks - span, (1 << 32) + 12345]);
        cx.count("high");
    }
    cfg.itable = tables.iter().map(|t| base + t).collect();
    if rng.chance(1, 3) {
        cfg.label = *b"\xff\xfe sixteen bytes";
    }
    match rng.below(5) {
        0 => cfg.label = *b"exactly-sixteen!",
        1 => cfg.label = [0; 16],
        2 => cfg.label = *b"a\0junk after nul",
        3 => cfg.label = *b"fifteen letters\0",
        _ => {}
    }
    let (label, uuid) = (cfg.label, cfg.uuid);
    let mut w = World::with_cfg(cfg, rng.clone());
    let probes = arr(sc, "probes");
    let mut specs = vec![];
    // Which probes are checked by path lookup (all are listed).
    for q in probes {
        let ino = u(q, "ino") as u32;
        let pos = w.b.inode_pos(ino);
        let want = (base + u(q, "blk")) * u64::from(bs) + u(q, "off");
        assert_eq!(pos, want, "src/adapters: encoder and specification disagree on the position of inode {ino}");
        let ty = s(q, "ty");
        let mut sp = InodeSpec::new(mode_bits(ty) | u(q, "perm") as u16);
        sp.uid = id(s(q, "uid"), &mut rng);
        sp.gid = id(s(q, "gid"), &mut rng);
        sp.size = size(s(q, "size"), u64::from(bs));
        sp.generation = rng.next() as u32;
        if ty == "reg" {
            sp.flags |= FL_EXTENTS;
            sp.iblock = w.b.extent_root(&ExtNode::Leaf(vec![]), ino, sp.generation);
        }
        w.b.put_inode(ino, &sp);
        w.link(2, format!("p{ino}").as_bytes(), ino, ftype_of_mode(sp.mode));
        specs.push((ino, ty, sp));
    }
    // The neighbours of the probes hold other values.
    let total = ipg * groups;
    for (ino, _, _) in &specs {
        for n in [ino - 1, ino + 1] {
            let listed = near.is_empty() || near.iter().any(|x| x.0 == ((n - 1) / ipg) as usize);
            if listed && n > 16 && n <= total && !w.b.inode_meta.contains_key(&n) {
                let mut sp = InodeSpec::new(S_IFREG | 0o321);
                sp.uid = 0xbad0_bad0;
                sp.gid = 0xbad1_bad1;
                sp.size = 0xbad;
                w.b.put_inode(n, &sp);
            }
        }
    }
    if let Some((ino, ty, _)) = specs.iter().find(|x| x.1 != "lnk") {
        let _ = ty;
        w.symlink(2, b"link", format!("/p{ino}").as_bytes());
    }
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    ensure!(fs.label().as_bytes() == &label, "label bytes");
    let cut = label.iter().position(|x| *x == 0).unwrap_or(16);
    ensure!(fs.label().to_str().ok() == std::str::from_utf8(&label[..cut]).ok(), "label text");
    ensure!(fs.label().display().to_string() == String::from_utf8_lossy(&label[..cut]), "label display");
    ensure!(fs.uuid().as_bytes() == &uuid, "uuid bytes");
    let h: String = uuid.iter().enumerate().map(|(i, x)| format!("{}{x:02x}", if [4, 6, 8, 10].contains(&i) { "-" } else { "" })).collect();
    ensure!(fs.uuid().to_string() == h, "uuid text {} instead of {h}", fs.uuid());
    let mut order: Vec<usize> = (0..specs.len()).collect();
    for i in 0..order.len() {
        let j = rng.below((i + 1) as u64) as usize;
        order.swap(i, j);
    }
    for k in order {
        let (ino, ty, sp) = &specs[k];
        let path = format!("/p{ino}");
        let m = fs.symlink_metadata(path.as_str()).map_err(|e| format!("symlink_metadata of inode {ino}: {e:?}"))?;
        check_meta(&m, ty, sp, &format!("inode {ino} by symlink_metadata"))?;
        if *ty != "lnk" {
            let m = fs.metadata(path.as_str()).map_err(|e| format!("metadata of inode {ino}: {e:?}"))?;
            check_meta(&m, ty, sp, &format!("inode {ino} by metadata"))?;
        }
        if *ty == "reg" {
            let f = fs.open(path.as_str()).map_err(|e| format!("open inode {ino}: {e:?}"))?;
            check_meta(f.metadata(), ty, sp, &format!("inode {ino} by open file"))?;
        }
        cx.count("inodes");
    }
    let mut seen = 0;
    for e in fs.read_dir("/").map_err(|e| format!("read_dir: {e:?}"))? {
        let e = e.map_err(|e| format!("entry: {e:?}"))?;
        let n = e.file_name();
        let n = std::str::from_utf8(n.as_ref()).unwrap().to_string();
        if let Some(num) = n.strip_prefix('p') {
            let num: u32 = num.parse().unwrap();
            let (_, ty, sp) = specs.iter().find(|x| x.0 == num).unwrap();
            check_meta(&e.metadata().map_err(|e| format!("entry metadata of {num}: {e:?}"))?, ty, sp, &format!("inode {num} by directory entry"))?;
            ensure!(e.file_type().ok() == Some(file_type(ty)), "entry type of {num}");
            seen += 1;
        }
        if n == "link" {
            let (num, ty, sp) = specs.iter().find(|x| x.1 != "lnk").unwrap();
            let m = fs.metadata("/link").map_err(|e| format!("metadata through a link: {e:?}"))?;
            check_meta(&m, ty, sp, &format!("inode {num} through a symlink"))?;
            ensure!(fs.symlink_metadata("/link").is_ok_and(|m| m.is_symlink()), "symlink_metadata of a symlink");
        }
    }
    ensure!(seen == specs.len(), "listed {seen} of {} entries", specs.len());
    check_no_oob(&ctl)
}

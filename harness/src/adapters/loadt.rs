//! C09: the load decision table.
use super::*;

use crate::enc::*;
use crate::ensure;
use crate::jenc::*;
use crate::world::*;

pub fn run(sc: &Value, cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    let base = &sc["base"];
    let bs = u(base, "bs") as u32;
    let is64 = b(base, "is64");
    let p = Profile {
        name: "load",
        bs,
        csum: b(base, "csum"),
        gdt_csum: b(base, "gdt"),
        is64,
        desc_size: if is64 { rng.pick(&[64, 64, 128]) } else { 32 },
        inode_size: match arr(sc, "devs").iter().find(|d| s(d, "f") == "misc").map_or("", |d| s(d, "v")) {
            "inode128" => 128,
            "inodehalf" => (bs / 2) as u16,
            "inodeblock" => bs as u16,
            _ => rng.pick(&[128, 256, 512]),
        },
        seed_in_sb: b(base, "seed"),
        groups: 2 + rng.below(2) as u32,
        ipg: 512,
        huge: false,
    };
    let mut cfg = make_cfg(&p, &mut rng);
    let flip = |f: &str, w: &mut u32| {
        for d in arr(sc, "devs") {
            if s(d, "f") == f {
                *w ^= 1 << u(d, "bit");
            }
        }
    };
    cfg.compat = 0x28;
    cfg.incompat = (cfg.incompat & 0x2080) | 0x242;
    cfg.ro_compat = (cfg.ro_compat & 0x410) | 0x6b;
    if b(base, "jrn") {
        cfg.compat |= 4;
        cfg.incompat |= 4;
    }
    flip("co", &mut cfg.compat);
    flip("inc", &mut cfg.incompat);
    flip("ro", &mut cfg.ro_compat);
    let extents = cfg.incompat & INCOMPAT_EXTENTS != 0;
    let encrypt = cfg.incompat & 0x1_0000 != 0;
    let jnum_zero = arr(sc, "devs").iter().any(|d| s(d, "f") == "jnum");
    let (label, uuid) = (cfg.label, cfg.uuid);
    let mut w = World::with_cfg(cfg.clone(), rng.clone());
    w.extents = extents;
    let n = bs as usize * 2 + 77;
    let data: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
    w.file_data(2, b"f", S_IFREG | 0o644, &data);
    let d = w.mkdir(2, b"d");
    w.file_data(d, b"g", S_IFREG | 0o600, b"inner");
    w.symlink(2, b"l", b"d/g");
    let esize = rng.pick(&[0, 5]);
    if encrypt {
        for (nm, mode) in [(&b"ef"[..], S_IFREG), (b"el", S_IFLNK)] {
            let mut sp = InodeSpec::new(mode | 0o644);
            sp.flags |= 0x800 | if extents { FL_EXTENTS } else { 0 };
            sp.size = if nm == b"ef" { esize } else { 5 };
            sp.iblock = [0x61; 60];
            if extents {
                sp.iblock = w.b.extent_root(&ExtNode::Leaf(vec![]), w.next_ino, 0);
            }
            w.add(2, nm, &sp);
        }
        let e = w.mkdir(2, b"ed");
        w.dirs.get_mut(&e).unwrap().meta.flags |= 0x800;
    }
    // A journal is always there; only the feature bits say whether it counts.
    let mut ju = [0u8; 16];
    ju.iter_mut().for_each(|x| *x = rng.next() as u8);
    let j = Jrn { bs: bs as usize, uuid: ju };
    let jblks = put_journal(&mut w, 6, &mut rng);
    for x in &jblks {
        w.b.img.set_block(*x, vec![0; bs as usize]);
    }
    let inc = J_64BIT | J_CSUM_V3 | J_REVOKE;
    w.b.img.set_block(jblks[0], j.superblock(6, 1, 7, inc));
    if jnum_zero {
        w.b.cfg.journal_ino = 0;
    }
    let (img, cfg) = w.finish();
    let mut img = img;
    let im = std::rc::Rc::get_mut(&mut img).unwrap();
    let mut sb = im.peek(1024, 1024);
    let csum = cfg.csum();
    let mut late = None;
    for d in arr(sc, "devs") {
        let (f, v) = (s(d, "f"), s(d, "v"));
        match (f, v) {
            ("magic", "zero") => p16(&mut sb, 0x38, 0),
            ("magic", "swap") => p16(&mut sb, 0x38, 0x53ef),
            ("magic", "bit") => p16(&mut sb, 0x38, 0xef53 ^ 1 << rng.below(16)),
            ("magic", _) => p16(&mut sb, 0x38, 0xef52),
            ("bs", "max") => p32(&mut sb, 0x18, u32::MAX),
            ("bs", x) => p32(&mut sb, 0x18, x[3..].parse().unwrap()),
            ("fdb", "over1") => p32(&mut sb, 0x14, cfg.blocks as u32 + 1),
            ("fdb", _) => p32(&mut sb, 0x14, u32::MAX),
            ("bpg", _) => p32(&mut sb, 0x20, 0),
            ("ipg", _) => p32(&mut sb, 0x28, 0),
            ("groups", "hi") => p32(&mut sb, 0x150, u32::MAX),
            ("groups", _) => {
                // exactly 2^32 groups, the last one partial
                let fd = g32(&sb, 0x14);
                let total = (cfg.bpg as u64) * ((1 << 32) - 1) + 1 + u64::from(fd);
                p32(&mut sb, 0x4, total as u32);
                p32(&mut sb, 0x150, (total >> 32) as u32);
            }
            ("isz", "over1") => p16(&mut sb, 0x58, bs as u16 + 1),
            ("isz", "double") => p16(&mut sb, 0x58, (bs * 2) as u16),
            ("isz", _) => p16(&mut sb, 0x58, u16::MAX),
            ("dsz", "zero") => p16(&mut sb, 0xfe, 0),
            ("dsz", "one") => p16(&mut sb, 0xfe, 1),
            ("dsz", "max") => p16(&mut sb, 0xfe, u16::MAX),
            ("dsz", x) => p16(&mut sb, 0xfe, x.parse().unwrap()),
            ("sum", x) => late = Some(x.to_string()),
            ("misc", "state") => {
                p16(&mut sb, 0x3a, rng.next() as u16);
                p16(&mut sb, 0x3c, rng.next() as u16);
            }
            ("misc", "rev") => {
                p16(&mut sb, 0x3e, 9);
                p32(&mut sb, 0x48, 3);
            }
            ("misc", "times") => {
                for o in [0x2c, 0x30, 0x40, 0x44, 0x108, 0x164, 0x16c, 0x198, 0x1a0] {
                    p32(&mut sb, o, rng.next() as u32);
                }
            }
            ("misc", "quota") => {
                for o in [0x8, 0xc, 0x10, 0xe8, 0x240, 0x244, 0x248, 0x26c, 0x280] {
                    p32(&mut sb, o, rng.next() as u32);
                }
            }
            ("misc", "inode128" | "inodehalf" | "inodeblock") => {}
            ("misc", _) => {
                for o in [0x24c, 0x250, 0x1c, 0x24, 0x154, 0x158, 0x200] {
                    p32(&mut sb, o, rng.next() as u32);
                }
                for o in 0x88..0xc8 {
                    sb[o] = rng.next() as u8;
                }
            }
            ("gd", x) => {
                let g = if x.ends_with('0') { 0 } else { cfg.groups - 1 };
                let per = cfg.bs / u32::from(cfg.desc_size);
                let start = u64::from(if bs == 1024 { 2u32 } else { 1 } + g / per) * u64::from(bs);
                let at = start + u64::from(g % per) * u64::from(cfg.desc_size);
                let o = if x.starts_with("field") {
                    0x1e + rng.below(2)
                } else {
                    // not the location of the inode table
                    rng.pick(&[0, 4, 0xc, 0xe, 0x12, 0x14, 0x1a, 0x1c, if is64 { 0x3c } else { 0x10 }])
                };
                let old = im.peek(at + o, 1);
                im.poke(at + o, &[old[0] ^ 1 << rng.below(8)]);
            }
            ("jnum" | "inc" | "ro" | "co", _) => {}
            x => panic!("src/adapters: deviation {x:?}"),
        }
    }
    if csum {
        fix_sb_csum(&mut sb);
    } else {
        // Without the feature the field is free.
        p32(&mut sb, 0x3fc, if rng.chance(1, 2) { 0 } else { rng.next() as u32 });
    }
    match late.as_deref() {
        Some("field") => sb[0x3fc + rng.below(4) as usize] ^= 1 << rng.below(8),
        // Fields that decide nothing else.
        Some("early") => sb[rng.pick(&[0x2c, 0x30, 0x34, 0x40, 0x88, 0xb0])] ^= 1 << rng.below(8),
        Some("late") => sb[rng.pick(&[0x280, 0x300, 0x3f0, 0x3fb])] ^= 1 << rng.below(8),
        _ => {}
    }
    im.poke(1024, &sb);
    let (fs, ctl) = load(&img);
    let got = rclass(&fs);
    let verdict = arr(sc, "verdict");
    cx.count(got);
    ensure!(
        verdict.iter().any(|x| x.as_str() == Some(got)),
        "load gives {got} ({:?}) instead of {verdict:?}",
        fs.as_ref().err()
    );
    if let Err(e) = &fs {
        ensure!(!e.to_string().is_empty() && !format!("{e:?}").is_empty(), "empty error text");
    }
    let Ok(fs) = fs else { return Ok(()) };
    // Accepted: it must be readable.
    ensure!(fs.label().as_bytes() == &label && fs.uuid().as_bytes() == &uuid, "label or uuid");
    let got = fs.read("/f").map_err(|e| format!("read: {e:?}"))?;
    ensure!(got == data, "/f: {}", diff(&got, &data));
    ensure!(fs.read("/d/g").ok().as_deref() == Some(b"inner"), "/d/g: {:?}", fs.read("/d/g").err());
    ensure!(fs.read("/l").ok().as_deref() == Some(b"inner"), "/l: {:?}", fs.read("/l").err());
    let mut names: Vec<String> = vec![];
    for e in fs.read_dir("/").map_err(|e| format!("read_dir: {e:?}"))? {
        names.push(e.map_err(|e| format!("entry: {e:?}"))?.file_name().display().to_string());
    }
    let mut want = vec![".", "..", "f", "d", "l"];
    if encrypt {
        want.extend(["ef", "el", "ed"]);
        ensure!(rclass(&fs.read("/ef")) == "Encrypted", "reading an encrypted file: {}", rclass(&fs.read("/ef")));
        ensure!(rclass(&fs.open("/ef")) == "Encrypted", "opening an encrypted file: {}", rclass(&fs.open("/ef")));
        ensure!(rclass(&fs.read_dir("/ed")) == "Encrypted", "listing an encrypted directory");
        ensure!(rclass(&fs.read("/ed/x")) == "Encrypted", "lookup in an encrypted directory");
        ensure!(rclass(&fs.read_link("/el")) == "Encrypted", "encrypted link target");
        ensure!(fs.metadata("/ef").is_ok_and(|m| m.len() == esize), "metadata of an encrypted file");
    }
    ensure!(names == want, "names {names:?}");
    check_no_oob(&ctl)
}

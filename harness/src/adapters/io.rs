//! C11: a failure at every reader call (Io.tla), and the block cache (Cache.tla).
use super::*;
use super::view::{any_world, arm, disarm, mark};
use crate::disk::SimDisk;
use crate::enc::*;
use crate::ensure;
use crate::stdfs;
use crate::world::*;

pub fn run(sc: &Value, cx: &mut Cx) -> Res {
    let mode = s(sc, "mode");
    let mut st = any_world(cx);
    while mode == "short" && st.img.nblocks * u64::from(st.img.bs) > 48 << 20 {
        st = any_world(cx);
    }
    let (op, node) = (s(sc, "op"), s(sc, "node"));
    let path = st.path(s(sc, "path"));
    let what = format!("{op} {}", s(sc, "path"));
    let want = if s(sc, "err").is_empty() { Ok(st.expect(op, node)) } else { Err(s(sc, "err").to_string()) };
    let check = |r: &Result<String, Ext4Error>, when: &str| -> Res {
        match (r, &want) {
            (Ok(a), Ok(b)) => ensure!(a == b, "{what}, {when}: {a} instead of {b}"),
            (Err(e), Err(c)) => ensure!(class(e) == c, "{what}, {when}: {e:?} instead of {c}"),
            (r, w) => return Err(format!("{what}, {when}: {r:?} instead of {w:?}")),
        }
        Ok(())
    };
    let go = |fs: &Ext4| stdfs::exec(fs, op, &path, &mut vec![]);
    if mode.starts_with("load") {
        // How many reader calls does loading make?
        let (fs, ctl) = load(&st.img);
        fs.map_err(|e| format!("load: {e:?}"))?;
        let n = ctl.borrow().calls;
        cx.add("load_calls", n);
        let ks: Vec<u64> = if n <= 16 || cx.thorough { (1..=n).collect() } else { (0..12).map(|_| 1 + cx.rng.below(n)).chain([1, 2, n - 1, n]).collect() };
        for k in ks {
            let (disk, ctl) = SimDisk::new(st.img.clone());
            {
                let mut c = ctl.borrow_mut();
                c.fail = if mode == "load" { [k].into() } else { (k..n + 50).collect() };
            }
            let r = Ext4::load(Box::new(disk));
            let hit = ctl.borrow().failed > 0;
            ensure!(hit, "call {k} of loading was not made");
            let cl = rclass(&r);
            let d = SimDisk { img: st.img.clone(), ctl: ctl.clone() };
            ensure!(cl == "Io", "loading with a failure at call {k} of {n} gives {cl}");
            disarm(&ctl, (0, 0), &r, "load")?;
            // Loading again from the same device works.
            let fs = Ext4::load(Box::new(d)).map_err(|e| format!("loading again: {e:?}"))?;
            check(&go(&fs), "after a failed load")?;
            check_no_oob(&ctl)?;
        }
        return Ok(());
    }
    if mode == "short" {
        return short(&st, cx, &what, &want, &|fs: &Ext4| go(fs));
    }
    let warm = mode == "warm";
    let mut k = 0;
    let mut shared = None;
    loop {
        k += 1;
        ensure!(k < 500, "{what}: more than 500 reader calls");
        let (fs, ctl) = match shared.take() {
            Some(x) if warm => x,
            _ => {
                let (fs, ctl) = load(&st.img);
                (fs.map_err(|e| format!("load: {e:?}"))?, ctl)
            }
        };
        if warm {
            // Start from an arbitrary cache.
            match cx.rng.below(3) {
                0 => {}
                1 => {
                    fs.read("/v").map_err(|e| format!("read /v: {e:?}"))?;
                }
                _ => {
                    fs.read("/v").map_err(|e| format!("read /v: {e:?}"))?;
                    let ops = ["metadata", "read_dir", "read"];
                    let _ = stdfs::exec(&fs, ops[cx.rng.below(3) as usize], &st.path(["/d", "/f", "/h"][cx.rng.below(3) as usize]), &mut vec![]);
                }
            }
        }
        let before = mark(&ctl);
        if mode == "from" {
            ctl.borrow_mut().fail = (before.0 + k..before.0 + 2000).collect();
        } else {
            arm(&ctl, &k.to_string());
        }
        let r = go(&fs);
        let hit = disarm(&ctl, before, &r, &what)?;
        if !hit {
            check(&r, "without a failure")?;
        } else {
            ensure!(rclass(&r) == "Io", "{what}: reader call {k} failed and the result is {r:?}");
            cx.count("faults");
        }
        let twin = if cx.rng.chance(1, 2) { fs.clone() } else { fs };
        check(&go(&twin), &format!("after a failure at call {k}"))?;
        check_no_oob(&ctl)?;
        if !hit && (!warm || k > 12) {
            return Ok(());
        }
        shared = Some((twin, ctl));
    }
}

/// Directory for the image files of this process, removed when dropped.
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
impl Scratch {
    fn new() -> Result<Self, String> {
        let d = std::env::temp_dir().join(format!("e4v-{}", std::process::id()));
        std::fs::create_dir_all(&d).map_err(|e| format!("scenario: {e}"))?;
        Ok(Self(d))
    }
}

/// The same (possibly cut off) image through every reader the library offers.
fn short(st: &stdfs::Std, cx: &mut Cx, what: &str, want: &Result<String, String>, go: &dyn Fn(&Ext4) -> Result<String, Ext4Error>) -> Res {
    let total = st.img.nblocks * u64::from(st.img.bs);
    let bs = u64::from(st.img.bs);
    let cut = match cx.rng.below(6) {
        0 => cx.rng.below(6000),
        1 => total - 1 - cx.rng.below(bs),
        2 => 1 + cx.rng.below(total),
        3 => cx.rng.below(total / bs / 16) * bs,
        4 => {
            // Just behind, or inside, a block that holds something.
            let mut v: Vec<u64> = st.img.blocks.keys().copied().collect();
            v.sort_unstable();
            let b = v[cx.rng.below(v.len() as u64) as usize];
            (b + cx.rng.below(2)) * bs + [0, bs / 2, 1][cx.rng.below(3) as usize]
        }
        _ => total,
    }
    .min(total);
    let mut bytes = vec![0u8; cut as usize];
    ensure!(st.img.read(0, &mut bytes), "scenario: image read");
    let (disk, ctl) = SimDisk::new(st.img.clone());
    ctl.borrow_mut().bad_range = Some((cut, u64::MAX));
    let dir = Scratch::new()?;
    let file = dir.0.join("image");
    std::fs::write(&file, &bytes).map_err(|e| format!("scenario: {e}"))?;
    let loaded = [
        ("device", Ext4::load(Box::new(disk))),
        ("vector", Ext4::load(Box::new(bytes))),
        ("path", Ext4::load_from_path(&file)),
        ("file", Ext4::load(Box::new(std::fs::File::open(&file).map_err(|e| format!("scenario: {e}"))?))),
    ];
    let mut seen: Option<String> = None;
    for (kind, r) in loaded {
        let r = match r {
            Ok(fs) => go(&fs),
            Err(e) => {
                ensure!(class(&e) == "Io" && cut < total, "{what}: loading from a {kind} cut at {cut} of {total}: {e:?}");
                cx.count("short_load");
                Err(e)
            }
        };
        let got = match (&r, want) {
            (Err(Ext4Error::Io(_)), _) if cut < total => "Io".to_string(),
            (Ok(a), Ok(b)) if a == b => "result".into(),
            (Err(e), Err(c)) if class(e) == c => "error".into(),
            (r, w) => return Err(format!("{what}, from a {kind} cut at {cut} of {total}: {r:?} instead of {w:?}")),
        };
        cx.count(&format!("short_{got}"));
        match &seen {
            None => seen = Some(got),
            Some(x) => ensure!(*x == got, "{what}: {got} from a {kind} cut at {cut} of {total}, {x} from the others"),
        }
    }
    let gone = Ext4::load_from_path(dir.0.join("absent"));
    ensure!(rclass(&gone) == "Io", "loading an absent file: {:?}", rclass(&gone));
    Ok(())
}

/// Access history of Cache.tla over a file at the very end of the filesystem.
pub fn cache(sc: &Value, cx: &mut Cx) -> Res {
    let r = u(sc, "r");
    let nb = u(sc, "nb");
    let p = loop {
        let p = cx.rng.pick(PROFILES);
        if !p.huge && (p.bs >= 32768) == (r == 1) {
            break p;
        }
    };
    let mut cfg = make_cfg(&p, &mut cx.rng);
    // The last group's inode table may begin at block 0, where the library also
    // keeps its unused cache entries out of the way: the part of that block
    // after the superblock holds an inode.
    let isz = u32::from(p.inode_size);
    let zero = p.bs >= 4096 && p.groups > 1 && p.ipg > 2048 / isz && cfg.itable.len() == p.groups as usize && cx.rng.chance(2, 3);
    if zero {
        *cfg.itable.last_mut().unwrap() = 0;
    }
    let mut w = World::with_cfg(cfg, cx.rng.clone());
    let bs = w.bs();
    if zero {
        let slots = (2048 / isz, (p.bs / isz).min(p.ipg));
        let slot = slots.0 + cx.rng.below(u64::from(slots.1 - slots.0)) as u32;
        let ino = (p.groups - 1) * p.ipg + slot + 1;
        let mut z = InodeSpec::new(S_IFREG | 0o640);
        z.uid = 0x00ab_cdef;
        z.size = 0x1234;
        w.link(2, b"z", ino, 1);
        w.b.put_inode(ino, &z);
        cx.count("cache_zero");
    }
    // Real blocks per abstract block.
    let unit = if r == 1 { 1 } else { 32768 / bs / r };
    let n = nb * unit;
    let end = w.b.cfg.blocks;
    w.b.use_last = false;
    let ino = w.ino();
    let mut spec = InodeSpec::new(S_IFREG | 0o644);
    spec.flags = FL_EXTENTS;
    spec.size = n * bs;
    spec.iblock = w.b.extent_root(&ExtNode::Leaf(vec![Ext { lblk: 0, len: n as u16, phys: end - n, unwritten: false }]), ino, 0);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &spec);
    ensure!(w.b.alloc() < end - n, "scenario: no room");
    let mut lmap = LMap::default();
    lmap.push(n, Some(end - n));
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let mut f = fs.open("/f").map_err(|e| format!("open: {e:?}"))?;
    let mut f2 = fs.clone().open("/f").map_err(|e| format!("open: {e:?}"))?;
    for (q, a) in arr(sc, "hist").iter().enumerate() {
        let (blk, fault) = (u(a, "b") - 1, b(a, "f"));
        if zero && cx.rng.chance(1, 6) {
            let before = mark(&ctl);
            ctl.borrow_mut().fail_all = fault;
            let x = fs.symlink_metadata("/z");
            let hit = disarm(&ctl, before, &x, &format!("metadata before access {q}"))?;
            if !hit {
                let m = x.map_err(|e| format!("metadata before access {q}: {e:?}"))?;
                ensure!((m.uid(), m.len(), m.mode()) == (0x00ab_cdef, 0x1234, 0o640), "metadata before access {q}: {m:?}");
            }
        }
        // The block that starts a unit reads ahead as the specification says.
        let real = blk * unit + if cx.rng.chance(1, 6) { cx.rng.below(unit) } else { 0 };
        let off = [0, 1, bs - 5, bs / 2][cx.rng.below(4) as usize];
        let len = (1 + cx.rng.below(bs - off)) as usize;
        let h = if cx.rng.chance(1, 4) { &mut f2 } else { &mut f };
        let pos = real * bs + off;
        h.seek_to(pos).map_err(|e| format!("seek: {e:?}"))?;
        let mut buf = vec![0xCC; len];
        let before = mark(&ctl);
        ctl.borrow_mut().fail_all = fault;
        let x = h.read_bytes(&mut buf);
        let hit = disarm(&ctl, before, &x, &format!("access {q}"))?;
        if hit {
            ensure!(rclass(&x) == "Io", "access {q} (block {real}): the reader failed and the result is {x:?}");
            ensure!(h.position() == pos, "access {q}: position moved");
            cx.count("cache_faults");
            continue;
        }
        let k = x.map_err(|e| format!("access {q}: {e:?}"))?;
        ensure!(k >= 1 && k <= len, "access {q}: {k} bytes of {len}");
        let mut want = vec![0; k];
        lmap.bytes(&img, pos, &mut want);
        ensure!(buf[..k] == want, "access {q} (block {real} offset {off}): {}", diff(&buf[..k], &want));
        cx.count("cache_accesses");
    }
    check_no_oob(&ctl)
}

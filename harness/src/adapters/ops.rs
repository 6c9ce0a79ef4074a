//! C13: operation x object matrix; C15: symlink targets.
use super::meta::mode_bits;
use super::*;
use crate::enc::*;
use crate::ensure;
use crate::world::*;
use ext4_view::{FileType, Path, PathBuf};

fn io_kind(k: &str) -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    match k {
        "InvalidInput" => InvalidInput,
        "InvalidData" => InvalidData,
        "PermissionDenied" => PermissionDenied,
        "Other" => Other,
        "NotFound" => NotFound,
        "NotADirectory" => NotADirectory,
        "IsADirectory" => IsADirectory,
        "FileTooLarge" => FileTooLarge,
        _ => panic!("src/adapters: io kind {k}"),
    }
}
/// The io::Error made from `e` has the given kind and keeps the error inside.
pub fn check_io(e: Ext4Error, kind: &str) -> Res {
    let text = e.to_string();
    let cls = class(&e);
    let io = std::io::Error::from(e);
    ensure!(io.kind() == io_kind(kind), "{cls} becomes io::ErrorKind::{:?} instead of {kind}", io.kind());
    if kind == "Other" {
        let inner = io.get_ref().map(|x| x.to_string()).unwrap_or_default();
        ensure!(
            text.contains(&inner) && !inner.is_empty(),
            "io::Error made from {cls} does not carry it: {inner:?}"
        );
    }
    Ok(())
}

pub fn ops(sc: &Value, cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    let p = rng.pick(PROFILES);
    let mut cfg = make_cfg(&p, &mut rng);
    cfg.incompat |= 0x1_0000; // encryption in use
    let mut w = World::with_cfg(cfg, rng.clone());
    w.extents = p.huge || rng.chance(1, 2);
    let bs = w.bs();
    let obj = s(sc, "obj");
    let via = u(sc, "via");
    let rel = b(sc, "rel");
    let suffix = s(sc, "suffix");
    let d = w.mkdir(2, b"d");
    let e = w.mkdir(2, b"e");
    // Neighbours in the same directory.
    w.file_data(d, b"n1", S_IFREG | 0o644, b"neighbour");
    w.symlink(d, b"n2", b"n1");
    let text = {
        let mut t = String::new();
        let n = rng.range(1, 3 * bs.min(8192)) as usize;
        while t.len() < n {
            t.push_str(rng.pick(&["plain ", "é", "日本", "🦀", "\u{7f}", "\u{ffff}", "\0", "\n"]));
        }
        t
    };
    let mut content: Vec<u8> = vec![];
    let mut osize = 0;
    let mut target: Vec<u8> = vec![];
    match obj {
        "fifo" | "sock" | "chr" | "blk" => {
            let mut sp = InodeSpec::new(mode_bits(obj) | 0o600);
            if rng.chance(1, 2) {
                sp.iblock[4] = 7; // device number
            }
            if rng.chance(1, 4) {
                // Meaningless, but not a file that can be read.
                sp.size = rng.pick(&[1, 60, bs]);
                osize = sp.size;
            }
            w.add(d, b"o", &sp);
        }
        "text" | "bad0" | "badmid" | "badend" | "encfile" | "empty" => {
            content = match obj {
                "empty" => vec![],
                "encfile" if rng.chance(1, 3) => vec![],
                "bad0" => [&rng.pick(&[&b"\xff"[..], b"\x80", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5"])[..], text.as_bytes()].concat(),
                "badmid" => {
                    let mut k = text.len() / 2;
                    while !text.is_char_boundary(k) {
                        k -= 1;
                    }
                    [&text.as_bytes()[..k], &rng.pick(&[&b"\xfe"[..], b"\xe2\x82", b"\xf0\x9f\xa6"])[..], b"x", &text.as_bytes()[k..]].concat()
                }
                "badend" => [text.as_bytes(), &rng.pick(&[&b"\xc3"[..], b"\xe2\x82", b"\xf0\x9f\xa6", b"\xff"])[..]].concat(),
                _ => text.into_bytes(),
            };
            let ino = w.ino();
            w.link(d, b"o", ino, 1);
            let mut sp = w.data_inode(ino, S_IFREG | 0o644, &content);
            if obj == "encfile" {
                sp.flags |= FL_ENCRYPT;
            }
            osize = sp.size;
            w.b.put_inode(ino, &sp);
        }
        "huge" => {
            let ino = w.ino();
            w.link(d, b"o", ino, 1);
            let mut sp = InodeSpec::new(S_IFREG | 0o644);
            // Far beyond any address space limit, or beyond the address space.
            sp.size = 0xffff_ffff * bs - rng.below(bs);
            sp.flags |= FL_EXTENTS;
            osize = sp.size;
            sp.iblock = w.b.extent_root(&ExtNode::Leaf(vec![]), ino, 0);
            w.b.put_inode(ino, &sp);
        }
        "dir" | "idir" | "encdir" => {
            let ino = w.mkdir(d, b"o");
            if obj == "encdir" {
                w.dirs.get_mut(&ino).unwrap().meta.flags |= FL_ENCRYPT;
            }
            if obj == "idir" || (obj == "encdir" && rng.chance(1, 2)) {
                let mut sp = InodeSpec::new(S_IFDIR | 0o755);
                sp.flags |= FL_INDEX | if obj == "encdir" { FL_ENCRYPT } else { 0 };
                let r = w.b.dx_root(ino, 0, d, 1, 0, &[(0, 1)]);
                let n1 = 12;
                let l = w.b.dir_block(&[Dirent { ino: n1, name: b"inner".to_vec(), ftype: 1, pad: 0 }], ino, 0);
                w.dirs.remove(&ino);
                w.put_dir_blocks(ino, sp, vec![r, l]);
            } else if obj == "dir" {
                w.file_data(ino, b"inner", S_IFREG | 0o644, b"q");
            }
        }
        "dangling" => {
            target = rng.pick(&[&b"nowhere"[..], b"/d/nowhere", b"../nowhere", b"n1x", b"/e/q", b"../e/o"]).to_vec();
            w.symlink(d, b"o", &target);
        }
        "loop" => {
            target = rng.pick(&[&b"o"[..], b"/d/o", b"../d/o", b"./o"]).to_vec();
            w.symlink(d, b"o", &target);
        }
        "encsym" | "emptysym" | "nulsym" => {
            let mut sp = InodeSpec::new(S_IFLNK | 0o777);
            let n = rng.pick(&[1usize, 2, 30, 59]);
            for x in &mut sp.iblock[..n] {
                *x = b'a';
            }
            sp.size = n as u64;
            match obj {
                "encsym" => sp.flags |= FL_ENCRYPT,
                "emptysym" => sp.size = 0,
                _ => sp.iblock[rng.below(n as u64) as usize] = 0,
            }
            w.add(d, b"o", &sp);
        }
        _ => {}
    }
    // Links that lead to it, from another directory.
    let mut at = if rel { "../d/o".to_string() } else { "/d/o".to_string() };
    let mut name = "/d/o".to_string();
    for k in 0..via {
        // A slow symlink now and then.
        let mut t = at.clone();
        if rng.chance(1, 3) {
            let pad = "./".repeat(40);
            t = if t.starts_with('/') { format!("/{pad}{}", &t[1..]) } else { format!("{pad}{t}") };
        }
        let l = format!("l{k}");
        w.symlink(e, l.as_bytes(), t.as_bytes());
        target = t.into_bytes();
        at = if rel { l.clone() } else { format!("/e/{l}") };
        name = format!("/e/{l}");
    }
    let specs = w.b.inode_meta.clone();
    let _ = specs;
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let path = format!("{name}{suffix}");
    let mut list: Vec<&Value> = arr(sc, "ops").iter().collect();
    if rng.chance(1, 2) {
        list.reverse();
    }
    for o in list {
        let op = s(o, "op");
        let (ok, k) = (b(o, "ok"), s(o, "k"));
        let what = format!("{op}({path:?}) with {obj}");
        // (error, detail of a success)
        let res: Result<String, Ext4Error> = match op {
            "open" => fs.open(path.as_str()).map(|mut f| {
                if k == "huge" {
                    return format!("len {}", f.metadata().len());
                }
                let mut v = vec![0; content.len() + 10];
                let mut n = 0;
                while let Ok(x) = f.read_bytes(&mut v[n..]) {
                    n += x;
                    if x == 0 {
                        break;
                    }
                }
                v.truncate(n);
                if v == content { "content".into() } else { format!("wrong content: {}", diff(&v, &content)) }
            }),
            "read" => fs.read(path.as_str()).map(|v| if v == content { "content".into() } else { format!("wrong content: {}", diff(&v, &content)) }),
            "read_to_string" => fs.read_to_string(path.as_str()).map(|v| if v.as_bytes() == content { "content".into() } else { "wrong content".into() }),
            "read_link" => fs.read_link(path.as_str()).map(|t| if t.as_ref() == &target[..] { "target".into() } else { format!("wrong target {t:?}") }),
            "read_dir" => fs.read_dir(path.as_str()).map(|it| {
                let mut v: Vec<String> = vec![];
                for e in it {
                    match e {
                        Ok(e) => v.push(e.file_name().as_str().unwrap_or("?").to_string()),
                        Err(e) => v.push(format!("error {e:?}")),
                    }
                }
                v.join(" ")
            }),
            "exists" => fs.exists(path.as_str()).map(|x| x.to_string()),
            "metadata" => fs.metadata(path.as_str()).map(|m| format!("{:?} {}", m.file_type(), m.len())),
            "symlink_metadata" => fs.symlink_metadata(path.as_str()).map(|m| format!("{:?} {}", m.file_type(), m.len())),
            "canonicalize" => fs.canonicalize(path.as_str()).map(|p| String::from_utf8_lossy(p.as_ref()).into_owned()),
            _ => panic!("src/adapters: op {op}"),
        };
        cx.count("operations");
        match res {
            Err(e) => {
                ensure!(!ok, "{what} failed with {e:?} instead of succeeding");
                ensure!(class(&e) == k, "{what} failed with {e:?} instead of {k}");
                check_io(e, s(o, "io")).map_err(|m| format!("{what}: {m}"))?;
            }
            Ok(d) => {
                ensure!(ok, "{what} succeeded ({}) instead of failing with {k}", d.chars().take(80).collect::<String>());
                let parent = b(sc, "parent");
                let ftype = |k: &str| match k {
                    "link" | "dangling" | "loop" | "encsym" | "emptysym" | "nulsym" => FileType::Symlink,
                    "dir" | "idir" | "encdir" | "parent" => FileType::Directory,
                    "fifo" | "sock" | "chr" | "blk" => meta::file_type(k),
                    _ => FileType::Regular,
                };
                let good = match op {
                    "open" if k == "huge" => d == format!("len {osize}"),
                    "open" | "read" | "read_to_string" => d == "content",
                    "read_link" => d == "target",
                    "exists" => d == k,
                    "read_dir" => {
                        if parent {
                            d == ". .. n1 n2 o"
                        } else {
                            d == ". .. inner"
                        }
                    }
                    "metadata" | "symlink_metadata" => {
                        let mut it = d.split(' ');
                        let t = it.next().unwrap();
                        t == format!("{:?}", ftype(k))
                            && (ftype(k) != FileType::Regular || it.next().unwrap() == osize.to_string())
                    }
                    "canonicalize" => d == if parent { "/d" } else { "/d/o" },
                    _ => true,
                };
                ensure!(good, "{what}: unexpected result {}", d.chars().take(100).collect::<String>());
            }
        }
    }
    // The same paths in the other accepted forms, and paths that are not accepted.
    let cls = |r: Result<ext4_view::Metadata, Ext4Error>| rclass(&r).to_string();
    let base = cls(fs.metadata(path.as_str()));
    let pb = PathBuf::try_from(path.as_bytes()).map_err(|e| format!("PathBuf: {e:?}"))?;
    let pv = Path::try_from(path.as_str()).map_err(|e| format!("Path: {e:?}"))?;
    for (n, c) in [
        ("bytes", cls(fs.metadata(path.as_bytes()))),
        ("Path", cls(fs.metadata(pv))),
        ("PathBuf", cls(fs.metadata(&pb))),
        ("String", cls(fs.metadata(&path))),
    ] {
        ensure!(c == base, "metadata({path:?}) as {n} gives {c} instead of {base}");
    }
    let relp = path.trim_start_matches('/').to_string();
    let nul = format!("{path}/\0").into_bytes();
    let long = format!("{path}/{}", "x".repeat(256)).into_bytes();
    for (bad, want) in [(relp.into_bytes(), "NotAbsolute"), (nul, "MalformedPath"), (long, "MalformedPath")] {
        let q = &bad[..];
        for (op, c) in [
            ("open", rclass(&fs.open(q))),
            ("read", rclass(&fs.read(q))),
            ("read_to_string", rclass(&fs.read_to_string(q))),
            ("read_link", rclass(&fs.read_link(q))),
            ("read_dir", rclass(&fs.read_dir(q))),
            ("exists", rclass(&fs.exists(q))),
            ("metadata", rclass(&fs.metadata(q))),
            ("symlink_metadata", rclass(&fs.symlink_metadata(q))),
            ("canonicalize", rclass(&fs.canonicalize(q))),
        ] {
            ensure!(c == want, "{op} with the path {:?} gives {c} instead of {want}", String::from_utf8_lossy(&bad));
        }
    }
    check_no_oob(&ctl)
}

/// A target of exactly `n` bytes with the given shape, for a link in /d.
fn target_bytes(body: &str, n: usize, rng: &mut Rng) -> Vec<u8> {
    let mut t: Vec<u8> = vec![];
    match body {
        "dots" | "up" => {
            // ends in "o"; everything before is dots, "up" steps and slashes
            while t.len() + 1 < n {
                let room = n - 1 - t.len();
                if body == "up" && room >= 5 && rng.chance(1, 2) {
                    t.extend_from_slice(b"../d/");
                } else if room >= 2 && (t.is_empty() || rng.chance(3, 4)) {
                    t.extend_from_slice(b"./");
                } else if !t.is_empty() {
                    t.push(b'/');
                } else {
                    // one byte left over before "o": "o" plus a shorter prefix is
                    // impossible, so end in a dot directory instead.
                    break;
                }
            }
            t.push(b'o');
            while t.len() < n {
                // only reached for n == 2
                t.insert(0, b'o');
            }
        }
        "slashes" => {
            t.push(b'/');
            while t.len() + 3 < n {
                t.push(b'/');
            }
            t.extend_from_slice(b"d/o");
            // n == 4: "/d/o"
        }
        _ => {
            let comp = match body {
                "comp255" => 255,
                "comp256" => 256,
                _ => 1 + rng.below(255) as usize,
            };
            while t.len() < n {
                if !t.is_empty() {
                    t.push(b'/');
                }
                let k = comp.min(n - t.len());
                for _ in 0..k {
                    let mut c = if body == "high" { 0x80 + rng.below(128) as u8 } else { 1 + rng.below(255) as u8 };
                    if c == b'/' {
                        c = b'_';
                    }
                    t.push(c);
                }
                if body == "comp255" || body == "comp256" {
                    // one long component, the rest short ones
                    while t.len() + 2 <= n {
                        t.extend_from_slice(b"/q");
                    }
                    if t.len() < n {
                        t.push(b'/');
                    }
                }
            }
            if body == "nul" {
                let k = rng.below(n as u64) as usize;
                t[k] = 0;
            }
        }
    }
    assert_eq!(t.len(), n, "src/adapters: target length for {body}");
    t
}

pub fn symlink(sc: &Value, cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    let bs = u(sc, "bs") as u32;
    let p = rng.pick(&PROFILES.iter().copied().filter(|p| p.bs == bs && (!p.huge || s(sc, "map") != "map")).collect::<Vec<_>>());
    let n = u(sc, "len") as usize;
    let body = s(sc, "body");
    let mut w = World::new(&p, rng.clone());
    let d = w.mkdir(2, b"d");
    let uid = rng.next() as u32;
    let mut sp = InodeSpec::new(S_IFREG | 0o640);
    sp.uid = uid;
    w.add(d, b"o", &sp);
    if n == 2 && (body == "dots" || body == "up") {
        w.add(d, b"oo", &sp);
    }
    let target = if n == 0 { vec![] } else { target_bytes(body, n, &mut rng) };
    let ino = w.ino();
    w.link(d, b"l", ino, 7);
    let mut spec = InodeSpec::new(S_IFLNK | 0o777);
    spec.generation = rng.next() as u32;
    if s(sc, "store") == "inode" {
        // whatever follows the terminator is not part of the target
        for x in &mut spec.iblock {
            *x = rng.next() as u8;
        }
        spec.iblock[..n].copy_from_slice(&target);
        spec.iblock[n] = 0;
        spec.size = n as u64;
    } else {
        let mut blks = vec![];
        for c in target.chunks(bs as usize) {
            let mut x = c.to_vec();
            let l = x.len();
            x.resize(bs as usize, rng.pick(&[0, b'/', b'z', 0xff]));
            if l < x.len() {
                x[l] = rng.pick(&[0, b'y']);
            }
            let b = w.b.alloc();
            w.b.img.set_block(b, x);
            blks.push(b);
            w.b.alloc();
        }
        spec.size = n as u64;
        match s(sc, "map") {
            "map" => {
                w.extents = false;
                w.map_blocks(ino, &mut spec, &blks);
            }
            "tree" => {
                spec.flags |= FL_EXTENTS;
                let leaf = w.b.alloc();
                let exts: Vec<Ext> = blks
                    .iter()
                    .enumerate()
                    .map(|(i, b)| Ext { lblk: i as u32, len: 1, phys: *b, unwritten: false })
                    .collect();
                let node = ExtNode::Index(vec![(0, ExtNode::Leaf(exts), leaf)]);
                spec.iblock = w.b.extent_root(&node, ino, spec.generation);
            }
            _ => {
                w.extents = true;
                w.map_blocks(ino, &mut spec, &blks);
            }
        }
    }
    w.extents = true;
    w.b.put_inode(ino, &spec);
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    for round in 0..2 {
        let got = fs.read_link("/d/l");
        match s(sc, "link") {
            "ok" => {
                let got = got.map_err(|e| format!("read_link of {n} bytes ({body}): {e:?}"))?;
                ensure!(got.as_ref() == &target[..], "read_link of {n} bytes ({body}): {}", diff(got.as_ref(), &target));
            }
            c => ensure!(rclass(&got) == c, "read_link of {n} bytes ({body}) gives {} instead of {c}", rclass(&got)),
        }
        let m = fs.metadata("/d/l");
        match s(sc, "follow") {
            "object" => {
                let m = m.map_err(|e| format!("following {n} bytes ({body}): {e:?}"))?;
                ensure!(m.uid() == uid, "following {n} bytes ({body}) leads elsewhere");
                let c = fs.canonicalize("/d/l").map_err(|e| format!("canonicalize: {e:?}"))?;
                ensure!(c.as_ref() == b"/d/o" || (n == 2 && c.as_ref() == b"/d/oo"), "canonicalize gives {c:?}");
            }
            c => ensure!(rclass(&m) == c, "following {n} bytes ({body}) gives {} instead of {c}", rclass(&m)),
        }
        let m = fs.symlink_metadata("/d/l").map_err(|e| format!("symlink_metadata: {e:?}"))?;
        ensure!(m.len() == n as u64 && m.is_symlink(), "symlink metadata");
        cx.count(if round == 0 { s(sc, "follow") } else { "again" });
    }
    check_no_oob(&ctl)
}

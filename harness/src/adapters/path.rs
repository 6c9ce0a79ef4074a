use super::*;
use crate::enc::*;
use crate::ensure;
use crate::world::*;
use ext4_view::Path;

/// A concrete spelling of the abstract names.
struct Names {
    a: Vec<u8>,
    b: Vec<u8>,
    f: Vec<u8>,
    s: Vec<u8>,
    x: Vec<u8>,
    scheme: u64,
}
fn names(rng: &mut Rng) -> Names {
    let scheme = rng.below(8);
    let v = |a: &[u8], b: &[u8], f: &[u8], s: &[u8], x: &[u8]| Names { a: a.to_vec(), b: b.to_vec(), f: f.to_vec(), s: s.to_vec(), x: x.to_vec(), scheme };
    let long = |c: u8| vec![c; 255];
    match scheme {
        0 => v(b"a", b"b", b"f", b"s", b"x"),
        // Names made of dots.
        1 => v(b"...", b"..a", b".a", b"a.", b"...."),
        2 => v(b"..b", b"....", b"a..", b"...", b".b"),
        3 => v(&[0xff], &[0xff, 0xfe], &[0x80], &[0xc3, 0x28], &[0xff, 0xff]),
        4 => {
            let mut x = long(b'q');
            x[254] = b'w';
            v(&long(b'q'), &long(b'b'), &[vec![b'q'; 254], vec![b'f']].concat(), &long(0xe9), &x)
        }
        // Prefixes of each other; the missing name is a prefix too.
        5 => v(b"name", b"names", b"namesp", b"namespa", b"nam"),
        6 => v(b" ", b"\n", b"\\", b"*", b"  "),
        _ => v(b"Dir", b"dIr", b"diR", b"DIR", b"dir"),
    }
}
impl Names {
    fn get(&self, c: &str) -> &[u8] {
        match c {
            "a" => &self.a,
            "b" => &self.b,
            "f" => &self.f,
            "s" => &self.s,
            "x" => &self.x,
            "." => b".",
            ".." => b"..",
            _ => panic!("src/adapters: name {c}"),
        }
    }
    fn join(&self, comps: &[Value], abs: bool, slash: bool, rng: &mut Rng) -> Vec<u8> {
        let sep = |p: &mut Vec<u8>, rng: &mut Rng| {
            let n = match rng.below(6) {
                0 => 2,
                1 => 3,
                _ => 1,
            };
            p.extend(std::iter::repeat_n(b'/', n));
        };
        let mut p = vec![];
        if abs {
            sep(&mut p, rng);
        }
        for (i, c) in comps.iter().enumerate() {
            if i > 0 {
                sep(&mut p, rng);
            }
            p.extend(self.get(c.as_str().unwrap()));
        }
        if slash {
            sep(&mut p, rng);
        }
        p
    }
}

/// Namespace plus expected results of resolving many paths (PathRes.tla).
pub fn resolve(sc: &Value, cx: &mut Cx) -> Res {
    let pr = profile(["1k-csum-64", "4k-csum-64-seed", "1k-plain-128", "2k-csum-32"][cx.rng.below(4) as usize]);
    let nm = names(&mut cx.rng);
    cx.count(&format!("names{}", nm.scheme));
    let mut rng = cx.rng.clone();
    let mut w = World::new(&pr, cx.rng.clone());
    w.extents = !cx.rng.chance(1, 4);
    let t = s(&sc["ns"], "t");
    let tgt = |k: &str, rng: &mut Rng| -> Vec<u8> {
        let g = &sc["ns"][k];
        nm.join(arr(g, "c"), b(g, "abs"), b(g, "sl"), rng)
    };
    let (t1, t2) = (tgt("t1", &mut rng), tgt("t2", &mut rng));
    // Filler entries before and after, so that the wanted entry is not first.
    let filler = |w: &mut World, d: u32, k: u8| {
        let ino = w.ino();
        let mut sp = InodeSpec::new(S_IFIFO | 0o600);
        sp.uid = 7000 + u32::from(k);
        w.b.put_inode(ino, &sp);
        w.link(d, &[b'~', k, 1], ino, 5);
    };
    let dirm = |uid: u32| InodeSpec { uid, ..InodeSpec::new(S_IFDIR | 0o755) };
    w.dirs.get_mut(&2).unwrap().meta = dirm(1001);
    filler(&mut w, 2, b'1');
    let a = w.mkdir(2, &nm.a);
    w.dirs.get_mut(&a).unwrap().meta = dirm(1002);
    let bdir = w.mkdir(a, &nm.b);
    w.dirs.get_mut(&bdir).unwrap().meta = dirm(1003);
    let file = |w: &mut World, d: u32, name: &[u8], uid: u32| {
        let ino = w.ino();
        w.link(d, name, ino, 1);
        let mut sp = w.data_inode(ino, S_IFREG | 0o644, format!("contents of node {uid}").as_bytes());
        sp.uid = uid;
        w.b.put_inode(ino, &sp);
    };
    let sym = |w: &mut World, d: u32, name: &[u8], target: &[u8], uid: u32| {
        let ino = w.symlink(d, name, target);
        let mut sp = w.b.inode_meta[&ino].clone();
        sp.uid = uid;
        w.b.put_inode(ino, &sp);
    };
    file(&mut w, 2, &nm.f, 1004);
    sym(&mut w, 2, &nm.s, &t1, 1005);
    filler(&mut w, 2, b'2');
    filler(&mut w, a, b'3');
    file(&mut w, a, &nm.f, 1006);
    match t {
        "A" => sym(&mut w, a, &nm.s, &t2, 1007),
        "B" => sym(&mut w, bdir, &nm.s, &t2, 1007),
        _ => {
            let d = w.mkdir(a, &nm.s);
            w.dirs.get_mut(&d).unwrap().meta = dirm(1007);
            file(&mut w, d, &nm.f, 1008);
        }
    }
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let kind = |n: u64| -> &str {
        match n {
            1 | 2 | 3 => "dir",
            4 | 6 | 8 => "file",
            5 => "sym",
            7 => if t == "C" { "dir" } else { "sym" },
            _ => panic!("src/adapters: node"),
        }
    };
    let nkids = |n: u64| -> usize {
        2 + match n {
            1 => 5,
            2 => 3 + usize::from(t != "B"),
            3 => usize::from(t == "B"),
            7 => 1,
            _ => 0,
        }
    };
    let long = nm.scheme == 4;
    for row in arr(sc, "rows") {
        let comps = arr(row, "p");
        let path = nm.join(comps, true, b(row, "s"), &mut rng);
        let (r, n, lr, ln) = (s(row, "r"), u(row, "n"), s(row, "lr"), u(row, "ln"));
        let p = Path::try_from(path.as_slice()).map_err(|e| format!("path rejected: {e:?}"))?;
        let at = |op: &str| format!("{op}({:?}) t1={:?} t2={:?}", p, String::from_utf8_lossy(&t1), String::from_utf8_lossy(&t2));
        // With 255-byte names a chain may legitimately exceed the length limit.
        let want = |got: &str, want: &str| -> bool { got == want || (long && got == "PathTooLong" && want != "NotADirectory") };
        let m = fs.metadata(p);
        ensure!(want(rclass(&m), r), "{}: {} instead of {r}", at("metadata"), rclass(&m));
        if long && rclass(&m) == "PathTooLong" {
            cx.count("long_names_too_long");
            continue;
        }
        if let Ok(m) = &m {
            ensure!(u64::from(m.uid()) == 1000 + n, "{}: reached inode with uid {} instead of {}", at("metadata"), m.uid(), 1000 + n);
        }
        cx.count(&format!("result_{r}"));
        let c = fs.canonicalize(p);
        ensure!(rclass(&c) == r, "{}: {} instead of {r}", at("canonicalize"), rclass(&c));
        if let Ok(c) = &c {
            let mut want: Vec<u8> = vec![];
            for x in arr(row, "can") {
                want.push(b'/');
                want.extend(nm.get(x.as_str().unwrap()));
            }
            if want.is_empty() {
                want.push(b'/');
            }
            ensure!(c.as_ref() == want, "{}: {:?} instead of {:?}", at("canonicalize"), c, String::from_utf8_lossy(&want));
        }
        let e = fs.exists(p);
        let want_e = match r {
            "Ok" => "true",
            "NotFound" => "false",
            x => x,
        };
        let got_e = match &e {
            Ok(true) => "true",
            Ok(false) => "false",
            Err(e) => class(e),
        };
        ensure!(want_e == got_e, "{}: {got_e} instead of {want_e}", at("exists"));
        let k = if r == "Ok" { kind(n) } else { "" };
        let want_read = match k {
            "dir" => "IsADirectory",
            "file" => "Ok",
            _ => r,
        };
        let rd = fs.read(p);
        ensure!(rclass(&rd) == want_read, "{}: {} instead of {want_read}", at("read"), rclass(&rd));
        if let Ok(d) = &rd {
            ensure!(*d == format!("contents of node {}", 1000 + n).as_bytes(), "{}: wrong file contents", at("read"));
        }
        if cx.rng.chance(1, 4) {
            let o = fs.open(p);
            ensure!(rclass(&o) == want_read, "{}: {} instead of {want_read}", at("open"), rclass(&o));
            if let Ok(o) = &o {
                ensure!(u64::from(o.metadata().uid()) == 1000 + n, "{}: wrong inode", at("open"));
            }
            let rs = fs.read_to_string(p);
            ensure!(rclass(&rs) == want_read, "{}: {} instead of {want_read}", at("read_to_string"), rclass(&rs));
        }
        let want_ls = match k {
            "dir" => "Ok",
            "file" => "NotADirectory",
            _ => r,
        };
        let ls = fs.read_dir(p);
        ensure!(rclass(&ls) == want_ls, "{}: {} instead of {want_ls}", at("read_dir"), rclass(&ls));
        if let Ok(ls) = ls {
            let cnt = ls.count();
            ensure!(cnt == nkids(n), "{}: {cnt} entries instead of {}", at("read_dir"), nkids(n));
        }
        let lm = fs.symlink_metadata(p);
        ensure!(rclass(&lm) == lr, "{}: {} instead of {lr}", at("symlink_metadata"), rclass(&lm));
        if let Ok(m) = &lm {
            ensure!(u64::from(m.uid()) == 1000 + ln, "{}: uid {} instead of {}", at("symlink_metadata"), m.uid(), 1000 + ln);
        }
        let want_rl = match (lr, if lr == "Ok" { kind(ln) } else { "" }) {
            ("Ok", "sym") => "Ok",
            ("Ok", _) => "NotASymlink",
            (x, _) => x,
        };
        let rl = fs.read_link(p);
        ensure!(rclass(&rl) == want_rl, "{}: {} instead of {want_rl}", at("read_link"), rclass(&rl));
        if let Ok(t) = &rl {
            let want = if ln == 5 { &t1 } else { &t2 };
            ensure!(t.as_ref() == *want, "{}: wrong target {:?}", at("read_link"), t);
        }
        cx.count("paths");
        // The same path without its leading separator is not absolute.
        if cx.rng.chance(1, 8) {
            let k = path.iter().take_while(|c| **c == b'/').count();
            let rel = Path::try_from(&path[k..]).unwrap();
            for (op, got) in [
                ("metadata", rclass(&fs.metadata(rel))),
                ("canonicalize", rclass(&fs.canonicalize(rel))),
                ("read_dir", rclass(&fs.read_dir(rel))),
                ("exists", rclass(&fs.exists(rel))),
                ("read_link", rclass(&fs.read_link(rel))),
                ("open", rclass(&fs.open(rel))),
            ] {
                ensure!(got == "NotAbsolute", "{op} of relative {rel:?}: {got}");
            }
            cx.count("relative");
        }
    }
    check_no_oob(&ctl)
}

/// Limits (PathLim.tla).
pub fn limits(sc: &Value, cx: &mut Cx) -> Res {
    let p = &sc["sc"];
    let (n, dl, ph) = (u(p, "n"), u(p, "dl") as usize, u(p, "ph"));
    let (cyc, rel, pad) = (b(p, "cyc"), s(p, "style") == "rel", s(p, "pad"));
    let max = 4096i64;
    let delta = i(p, "delta");
    let pre_len = |h: u64| 1 + h as usize * dl;
    let up = b(p, "up");
    let padding = |h: u64| -> Vec<u8> {
        if up {
            return b"up/../".to_vec();
        }
        if pad == "none" || h != ph {
            return vec![];
        }
        let l = (max + delta - (pre_len(h) as i64 + 3)).max(0) as usize;
        let mut v = vec![];
        if pad == "dot" {
            while v.len() + 2 <= l {
                v.extend(b"./");
            }
            if v.len() < l {
                // Also when it is the only byte: the path gets longer, but there is nothing before it.
                if v.is_empty() {
                    return vec![];
                }
                v.push(b'/');
            }
        } else if l >= 2 {
            v.extend(b"./");
            v.resize(l, b'/');
        }
        v
    };
    let mut pr = profile(if cx.rng.chance(1, 2) { "8k-csum-64" } else { "16k-plain-64" });
    pr.ipg = 128;
    let mut w = World::new(&pr, cx.rng.clone());
    let dname = |h: u64| -> Vec<u8> {
        let mut v = format!("{h:02}").into_bytes();
        v.resize(dl - 1, b'd');
        v
    };
    let lname = |h: u64| -> Vec<u8> { if h >= n && !(cyc && h == n) || n == 0 { b"fff".to_vec() } else { format!("l{:02}", h % n).into_bytes() } };
    // Link h (1-based) is named lname(h-1) and lives in dirs[h-1].
    let mut dirs = vec![2u32];
    let mut canon = vec![b'/'];
    for h in 1..=n {
        let d = if dl > 0 {
            let d = w.mkdir(dirs[h as usize - 1], &dname(h));
            canon.extend(dname(h));
            canon.push(b'/');
            d
        } else {
            2
        };
        dirs.push(d);
    }
    if up {
        for d in dirs.iter().collect::<std::collections::BTreeSet<_>>() {
            w.mkdir(*d, b"up");
        }
    }
    for h in 1..=n {
        let mut t = vec![];
        if !rel {
            t.push(b'/');
            if dl > 0 {
                for k in 1..h {
                    t.extend(dname(k));
                    t.push(b'/');
                }
            }
        }
        if dl > 0 {
            t.extend(dname(h));
            t.push(b'/');
        }
        t.extend(padding(h));
        t.extend(lname(h));
        w.symlink(dirs[h as usize - 1], &lname(h - 1), &t);
    }
    w.file_data(dirs[n as usize], b"fff", S_IFREG | 0o644, b"payload");
    canon.extend(b"fff");
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let fs = fs.map_err(|e| format!("load: {e:?}"))?;
    let mut path = vec![b'/'];
    path.extend(padding(0));
    path.extend(lname(0));
    let pp = Path::try_from(path.as_slice()).map_err(|e| format!("path rejected: {e:?}"))?;
    let res = s(sc, "res");
    let either = b(sc, "either");
    let ok = |got: &str| got == res || (either && got == "PathTooLong");
    let m = fs.metadata(pp);
    ensure!(ok(rclass(&m)), "metadata: {} instead of {res} (either={either}; {p})", rclass(&m));
    cx.count(rclass(&m));
    let c = fs.canonicalize(pp);
    ensure!(ok(rclass(&c)), "canonicalize: {} instead of {res}", rclass(&c));
    if let Ok(c) = c {
        ensure!(c.as_ref() == canon, "canonicalize: {c:?}");
    }
    let r = fs.read(pp);
    ensure!(ok(rclass(&r)), "read: {} instead of {res}", rclass(&r));
    if let Ok(r) = r {
        ensure!(r == b"payload", "read: wrong contents");
    }
    let e = fs.exists(pp);
    ensure!(ok(rclass(&e)), "exists: {} instead of {res}", rclass(&e));
    let r = fs.read_dir(pp);
    let got = rclass(&r);
    ensure!(if res == "Ok" { got == "NotADirectory" || (either && got == "PathTooLong") } else { ok(got) }, "read_dir: {got}");
    // Not following the last link needs one traversal less, here none at all.
    let lm = fs.symlink_metadata(pp);
    let want = if path.len() > max as usize { "PathTooLong" } else { "Ok" };
    ensure!(rclass(&lm) == want, "symlink_metadata: {} instead of {want}", rclass(&lm));
    if let Ok(lm) = lm {
        ensure!(lm.is_symlink() == (n > 0), "symlink_metadata followed the link");
    }
    cx.count("chains");
    check_no_oob(&ctl)
}

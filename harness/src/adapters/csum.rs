//! C07: damaged metadata is reported, never used.
use super::*;
use crate::enc::*;
use crate::ensure;
use crate::stdfs::{self, Kind, Obj, Std};
use crate::world::*;
use std::rc::Rc;

/// Byte ranges covered by the object's checksum, checksum included.
fn covered(o: &Obj, d: &[u8]) -> Vec<(usize, usize)> {
    let n = d.len();
    match o.kind {
        Kind::Sb | Kind::Gd(_) | Kind::Inode | Kind::Ptr | Kind::Jrn => vec![(0, n)],
        Kind::Leaf => vec![(0, n - 12), (n - 4, n)],
        Kind::DxRoot => vec![(0, 0x20 + 8 * usize::from(g16(d, 0x22))), (n - 8, n)],
        Kind::DxNode => vec![(0, 8 + 8 * usize::from(g16(d, 0xa))), (n - 8, n)],
        Kind::Ext => vec![(0, 12 + 12 * usize::from(g16(d, 4)) + 4)],
    }
}
fn sum_field(o: &Obj, d: &[u8]) -> Vec<usize> {
    let n = d.len();
    match o.kind {
        Kind::Sb => (0x3fc..0x400).collect(),
        Kind::Gd(_) => vec![0x1e, 0x1f],
        Kind::Inode => {
            let hi = n > 128 && g16(d, 0x80) >= 4;
            if hi { vec![0x7c, 0x7d, 0x82, 0x83] } else { vec![0x7c, 0x7d] }
        }
        Kind::Leaf | Kind::DxRoot | Kind::DxNode => (n - 4..n).collect(),
        Kind::Ext => {
            let t = 12 + 12 * usize::from(g16(d, 4));
            (t..t + 4).collect()
        }
        Kind::Ptr | Kind::Jrn => vec![],
    }
}
fn used(o: &Obj, d: &[u8]) -> Vec<usize> {
    match o.kind {
        Kind::Sb => [0x4, 0x14, 0x18, 0x20, 0x28, 0x38, 0x58, 0x60, 0x64, 0x68, 0x78, 0xec, 0xfe, 0x150, 0x160, 0x270].to_vec(),
        Kind::Gd(_) => (8..12).collect(),
        Kind::Inode => (0..8).chain(0x18..0x1a).chain(0x20..0x24).chain(0x28..0x28 + 60).chain(0x64..0x68).chain(0x6c..0x70).chain(0x78..0x7c).collect(),
        Kind::Leaf => (0..40).collect(),
        Kind::DxRoot => (0..0x28 + 8).collect(),
        Kind::DxNode => (8..0x18).collect(),
        Kind::Ext => (0..12 + 12 * usize::from(g16(d, 2))).collect(),
        Kind::Ptr | Kind::Jrn => vec![],
    }
}
/// Does the stored checksum match the contents?
fn matches(st: &Std, o: &Obj, d: &[u8]) -> bool {
    let c = &st.cfg;
    let n = d.len();
    let seed = crc32c(crc32c(c.seed(), &o.ino.to_le_bytes()), &o.generation.to_le_bytes());
    match o.kind {
        Kind::Sb => crc32c(!0, &d[..0x3fc]) == g32(d, 0x3fc),
        Kind::Gd(g) => {
            let mut e = d.to_vec();
            fix_bgd_csum(&mut e, c.seed(), g);
            e == d
        }
        Kind::Inode => {
            let mut e = d.to_vec();
            fix_inode_csum(&mut e, c.seed(), o.ino);
            e == d
        }
        Kind::Leaf => crc32c(seed, &d[..n - 12]) == g32(d, n - 4),
        Kind::DxRoot | Kind::DxNode => {
            let off = if matches!(o.kind, Kind::DxRoot) { 0x20 } else { 8 };
            let end = off + 8 * usize::from(g16(d, off + 2));
            end <= n && {
                let x = crc32c(seed, &d[..end]);
                let x = crc32c(x, &d[n - 8..n - 4]);
                crc32c(x, &[0; 4]) == g32(d, n - 4)
            }
        }
        Kind::Ext => {
            let t = 12 + 12 * usize::from(g16(d, 4));
            t + 4 <= n && crc32c(seed, &d[..t]) == g32(d, t)
        }
        Kind::Ptr | Kind::Jrn => true,
    }
}

/// Lost, torn and misdirected writes, and changes that leave a plausible
/// object behind; the checksum is not updated.
fn rewrite(o: &Obj, d: &mut [u8], st: &Std, rng: &mut Rng) -> String {
    let n = d.len();
    let old = d.to_vec();
    match rng.below(8) {
        0 => {
            d.fill(0);
            return "never written".into();
        }
        1 => {
            let a = rng.below(n as u64) as usize;
            let k = (a + 1 + rng.below(64) as usize).min(n);
            d[a..k].fill(rng.pick(&[0, 0xff]));
            return format!("bytes {a:#x}..{k:#x} filled");
        }
        2 => {
            // The end of another object of that kind.
            let same: Vec<&Obj> = st
                .objs
                .values()
                .filter(|x| std::mem::discriminant(&x.kind) == std::mem::discriminant(&o.kind) && x.pos != o.pos && x.len == o.len)
                .collect();
            if !same.is_empty() {
                let x = rng.pick(&same);
                let e = st.img.peek(x.pos, x.len);
                let a = if n > 512 { 512 * (1 + rng.below(n as u64 / 512 - 1) as usize) } else { rng.below(n as u64) as usize };
                d[a..].copy_from_slice(&e[a..]);
                return format!("torn at {a:#x}, end of {:#x}", x.pos);
            }
        }
        _ => {}
    }
    match o.kind {
        Kind::Ext => match rng.below(3) {
            0 => p16(d, 2, 0),
            1 => p16(d, 2, g16(&old, 2).saturating_sub(1)),
            _ => {
                let k = 12 + 12 * rng.below(u64::from(g16(&old, 2).max(1))) as usize;
                let f = rng.pick(&[(0, 4), (4, 2), (6, 2), (8, 4), (0, 12)]);
                d[k + f.0..k + f.0 + f.1].fill(0);
            }
        },
        Kind::Leaf => match rng.below(3) {
            0 => {
                p32(d, 0, 0);
                p16(d, 4, (n - 12) as u16);
            }
            1 => p32(d, 0, 0),
            _ => p32(d, 0, g32(&old, 0) + 1),
        },
        Kind::DxRoot | Kind::DxNode => {
            let o = if matches!(o.kind, Kind::DxRoot) { 0x20 } else { 8 };
            match rng.below(3) {
                0 => p16(d, o + 2, 1),
                1 => p32(d, o + 4, rng.below(4) as u32),
                _ => p32(d, o + 8, g32(&old, o + 8) ^ 0x8000_0000),
            }
        }
        Kind::Inode => match rng.below(8) {
            0 => p32(d, 4, 0),
            1 => p32(d, 0x20, 0),
            2 => p32(d, 0x20, g32(&old, 0x20) ^ rng.pick(&[FL_EXTENTS, FL_INDEX, 0x800, 0x1000_0000, 0x4000_0000])),
            3 => p16(d, 0x1a, 0),
            4 => p16(d, 0, g16(&old, 0) ^ rng.pick(&[0xc000, 0x2000, 0x8000, 0x4000, 0x1000])),
            5 => d[0x28..0x64].fill(0),
            6 => p16(d, 0x2a, 0),
            _ => p32(d, 0x64, g32(&old, 0x64) + 1),
        },
        Kind::Gd(_) => match rng.below(3) {
            0 => p32(d, 8, 0),
            1 => p32(d, 8, g32(&old, 8) + 1),
            _ => p16(d, 0x12, 7),
        },
        _ => d[rng.below(n as u64) as usize] ^= 0x40,
    }
    if *d == old[..] {
        d[0] ^= 1;
    }
    "rewritten".into()
}

pub fn run(sc: &Value, cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    let p = loop {
        let p = rng.pick(PROFILES);
        if p.csum && !p.huge {
            break p;
        }
    };
    let mut st = stdfs::build(&p, &mut rng);
    let damage = s(sc, "damage");
    let region = s(sc, "region");
    let mut note = String::new();
    let mut incompat_ok = false;
    let mut intact = vec![];
    for o in st.objs.values() {
        let d = st.img.peek(o.pos, o.len);
        assert!(matches(&st, o, &d), "src/adapters: {o:?} is not valid");
    }
    if damage != "none" {
        let o = st.objs[damage].clone();
        let old = st.img.peek(o.pos, o.len);
        intact.clone_from(&old);
        let mut tries = 0;
        loop {
            tries += 1;
            assert!(tries < 1000, "src/adapters: no damage possible");
            let mut d = old.clone();
            let cov = covered(&o, &old);
            let at: usize = match region {
                "head" => rng.below(16) as usize,
                "sum" => rng.pick(&sum_field(&o, &old)),
                "tail" => {
                    let (a, b) = *cov.last().unwrap();
                    let skip = if matches!(o.kind, Kind::Leaf) { cov[0] } else { (a, b) };
                    skip.1 - 1 - rng.below(8.min((skip.1 - skip.0) as u64)) as usize
                }
                "used" => rng.pick(&used(&o, &old)),
                _ => {
                    let total: usize = cov.iter().map(|c| c.1 - c.0).sum();
                    let mut k = rng.below(total as u64) as usize;
                    let mut at = 0;
                    for (a, b) in &cov {
                        if k < b - a {
                            at = a + k;
                            break;
                        }
                        k -= b - a;
                    }
                    at
                }
            };
            if region == "any" && rng.chance(1, 6) {
                // The object of another owner in its place.
                let others: Vec<&Obj> = st
                    .objs
                    .values()
                    .filter(|x| std::mem::discriminant(&x.kind) == std::mem::discriminant(&o.kind) && x.pos != o.pos && x.ino != o.ino)
                    .collect();
                if others.is_empty() || matches!(o.kind, Kind::Sb) {
                    continue;
                }
                let x = rng.pick(&others);
                d = st.img.peek(x.pos, x.len);
                note = format!("{damage} replaced by the object at {:#x}", x.pos);
            } else if region == "any" && !matches!(o.kind, Kind::Sb) && rng.chance(1, 2) {
                note = format!("{damage}: {}", rewrite(&o, &mut d, &st, &mut rng));
            } else if region == "sum" && rng.chance(1, 2) {
                // A checksum that was never written, or an erased one.
                let fill = rng.pick(&[0u8, 0, 0xff]);
                for k in sum_field(&o, &old) {
                    d[k] = fill;
                }
                note = format!("checksum of {damage} filled with {fill:#x}");
            } else {
                let x = if rng.chance(1, 2) { 1 << rng.below(8) } else { 1 + rng.below(255) as u8 };
                d[at] ^= x;
                note = format!("byte {at:#x} of {damage} changed from {:#x} to {:#x}", old[at], d[at]);
                if matches!(o.kind, Kind::Sb) {
                    // Switching the checksums off cannot be noticed.
                    if at == 0x65 && x & 4 != 0 {
                        continue;
                    }
                    incompat_ok = (0x60..0x64).contains(&at);
                }
            }
            if matches(&st, &o, &d) {
                continue; // the (16-bit) checksum cannot see it
            }
            Rc::get_mut(&mut st.img).unwrap().poke(o.pos, &d);
            break;
        }
        cx.count(&format!("damage_{:?}", o.kind).split('(').next().unwrap().to_string());
    }
    if damage != "none" && region == "any" && !b(sc, "atload") && rng.chance(1, 3) {
        let must: Vec<&Value> = arr(sc, "ops").iter().filter(|r| s(r, "v") == "fail").collect();
        if !must.is_empty() {
            let r = rng.pick(&must);
            let now = st.img.peek(st.objs[damage].pos, st.objs[damage].len);
            each_byte(&mut st, damage, &intact, Some(r), &mut rng, cx)?;
            let at = st.objs[damage].pos;
            Rc::get_mut(&mut st.img).unwrap().poke(at, &now);
        }
    }
    let (fs, _) = load(&st.img);
    if b(sc, "atload") {
        let got = rclass(&fs);
        ensure!(got == "Corrupt" || (incompat_ok && got == "Incompatible"), "{note}: load gives {got} instead of Corrupt");
        drop(fs);
        if region == "any" {
            each_byte(&mut st, damage, &intact, None, &mut rng, cx)?;
        }
        return Ok(());
    }
    let mut fs = fs.map_err(|e| format!("{note}: load: {e:?}"))?;
    let fresh = rng.chance(1, 4);
    let rows = arr(sc, "ops");
    let mut order: Vec<usize> = (0..rows.len()).collect();
    for i in 0..order.len() {
        let j = i + rng.below((order.len() - i) as u64) as usize;
        order.swap(i, j);
    }
    for k in order {
        let r = &rows[k];
        let (op, sym) = (s(r, "op"), s(r, "path"));
        if fresh {
            fs = load(&st.img).0.map_err(|e| format!("{note}: load: {e:?}"))?;
        }
        check_row(&st, &fs, op, sym, s(r, "node"), s(r, "err"), s(r, "v")).map_err(|e| format!("{note}: {e}"))?;
        cx.count(s(r, "v"));
    }
    Ok(())
}
/// Change every byte under the checksum of an object in turn (or as many
/// bytes of a large one): at load or in one operation that needs it.
fn each_byte(st: &mut Std, damage: &str, old: &[u8], row: Option<&Value>, rng: &mut Rng, cx: &mut Cx) -> Res {
    let o = st.objs[damage].clone();
    let mut at: Vec<usize> = covered(&o, old).iter().flat_map(|(a, b)| *a..*b).chain(sum_field(&o, old)).collect();
    at.sort_unstable();
    at.dedup();
    let max = if cx.thorough { 1100 } else { 70 };
    while row.is_some() && at.len() > max {
        let k = rng.below(at.len() as u64) as usize;
        at.swap_remove(k);
    }
    for k in at {
        let x = if rng.chance(2, 3) { 1 << rng.below(8) } else { 1 + rng.below(255) as u8 };
        let sb = matches!(o.kind, Kind::Sb);
        if sb && k == 0x65 && x & 4 != 0 {
            continue;
        }
        let mut d = old.to_vec();
        d[k] ^= x;
        if matches(st, &o, &d) {
            continue;
        }
        Rc::get_mut(&mut st.img).unwrap().poke(o.pos, &d);
        let note = || format!("byte {k:#x} of {damage} changed from {:#x} to {:#x}", old[k], d[k]);
        let fs = Ext4::load(Box::new(crate::disk::SimDisk::new(st.img.clone()).0));
        cx.count("bytes");
        if let Some(r) = row {
            let fs = fs.map_err(|e| format!("{}: load: {e:?}", note()))?;
            check_row(st, &fs, s(r, "op"), s(r, "path"), s(r, "node"), s(r, "err"), "fail").map_err(|e| format!("{}: {e}", note()))?;
        } else {
            let got = rclass(&fs);
            ensure!(got == "Corrupt" || (sb && (0x60..0x64).contains(&k) && got == "Incompatible"), "{}: load gives {got} instead of Corrupt", note());
        }
    }
    Ok(())
}
/// Run one operation and compare with the verdict of the specification.
pub fn check_row(st: &Std, fs: &Ext4, op: &str, sym: &str, node: &str, err: &str, v: &str) -> Res {
    let path = st.path(sym);
    let mut partial = vec![];
    let got = stdfs::exec(fs, op, &path, &mut partial);
    let what = format!("{op} of {}", path.escape_ascii());
    if let (Err(_), "read_dir" | "list_meta") = (&got, op) {
        if st.lists.contains_key(node) {
            let all = st.expect(op, node);
            let want: Vec<&str> = all.split('|').collect();
            ensure!(
                partial.len() <= want.len() && partial.iter().zip(&want).all(|(a, b)| a == b),
                "{what}: entries {partial:?} before the error"
            );
        }
    }
    let same = || -> Res {
        if err.is_empty() {
            let want = st.expect(op, node);
            match &got {
                Ok(x) => ensure!(*x == want, "{what}: {} instead of {}", clip(x), clip(&want)),
                Err(e) => return Err(format!("{what}: {e:?} instead of {}", clip(&want))),
            }
        } else {
            ensure!(rclass(&got) == err, "{what}: {} instead of {err}", got.as_ref().map_or_else(|e| format!("{e:?}"), |x| clip(x)));
        }
        Ok(())
    };
    match v {
        "same" => same(),
        "fail" => {
            ensure!(rclass(&got) == "Corrupt", "{what}: {} instead of a corruption error", got.as_ref().map_or_else(|e| format!("{e:?}"), |x| clip(x)));
            Ok(())
        }
        _ => {
            if rclass(&got) == "Corrupt" {
                return Ok(());
            }
            same()
        }
    }
}
pub fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

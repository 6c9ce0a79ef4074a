//! C12: path values.
use super::*;
use crate::ensure;
use ext4_view::{Component, DirEntryName, DirEntryNameError, Path, PathBuf, PathError};
use std::collections::hash_map::DefaultHasher;
use std::ffi::{OsStr, OsString};
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Bytes of a symbol sequence and the byte offset of each symbol.
fn bytes(q: &[Value], rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for x in q {
        match x.as_str().unwrap() {
            "a" => loop {
                let c = if rng.chance(1, 2) { b'a' + rng.below(26) as u8 } else { 1 + rng.below(126) as u8 };
                if c != b'/' && c != b'.' {
                    v.push(c);
                    break;
                }
            },
            "." => v.push(b'.'),
            "/" => v.push(b'/'),
            "z" => v.push(0),
            "u" => v.push(0x80 + rng.below(128) as u8),
            "L" => {
                for _ in 0..254 {
                    v.push(b'A' + rng.below(26) as u8);
                }
            }
            _ => panic!("src/adapters: symbol {x}"),
        }
    }
    v
}
fn width(x: &Value) -> usize {
    if x.as_str() == Some("L") {
        254
    } else {
        1
    }
}
/// Expected components as (kind, bytes): the symbols of the expected
/// component are located in order in the path's own symbols.
fn comps(want: &[Value], sy: &[Value], data: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut pos = 0; // symbol index
    let mut off = 0; // byte offset
    let mut r = vec![];
    for c in want {
        let name = c["name"].as_array().unwrap();
        // advance to the start of this component
        if s(c, "kind") != "root" {
            while sy[pos].as_str() == Some("/") {
                off += 1;
                pos += 1;
            }
        }
        let mut len = 0;
        for x in name {
            assert_eq!(*x, sy[pos], "src/adapters: component symbols");
            len += width(x);
            pos += 1;
        }
        r.push((s(c, "kind").to_string(), data[off..off + len].to_vec()));
        off += len;
    }
    r
}
fn actual<'a>(it: impl Iterator<Item = Component<'a>>, limit: usize) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut r = vec![];
    for c in it {
        ensure!(r.len() <= limit, "the component iterator does not end");
        let (k, n): (&str, Vec<u8>) = match c {
            Component::RootDir => ("root", b"/".to_vec()),
            Component::CurDir => ("cur", b".".to_vec()),
            Component::ParentDir => ("parent", b"..".to_vec()),
            Component::Normal(n) => ("normal", n.as_ref().to_vec()),
        };
        ensure!(c == n, "component {c:?} is not equal to its own bytes {n:?}");
        let mut other = n.clone();
        other.push(b'x');
        ensure!(c != other, "component {c:?} is equal to other bytes");
        let text = format!("{c:?}");
        let want = match k {
            "root" => "RootDir".to_string(),
            "cur" => "CurDir".into(),
            "parent" => "ParentDir".into(),
            _ => format!("Normal({})", debug(&n)),
        };
        ensure!(text == want, "Debug of a component is {text}, not {want}");
        r.push((k.to_string(), n));
    }
    Ok(r)
}
fn debug(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(x) => format!("\"{}\"", x.escape_debug()),
        Err(_) => format!("\"{}\"", b.escape_ascii()),
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn ename(e: &PathError) -> &'static str {
    match e {
        PathError::ComponentTooLong => "ComponentTooLong",
        PathError::ContainsNull => "ContainsNull",
        _ => "Encoding",
    }
}
fn has(set: &[Value], x: &str) -> bool {
    set.iter().any(|y| y.as_str() == Some(x))
}
fn conv<T: AsRef<[u8]>>(what: &str, r: Result<T, PathError>, data: &[u8], perr: &[Value]) -> Res {
    match r {
        Ok(p) => {
            ensure!(perr.is_empty(), "{what} accepts {:?} ({perr:?})", data.escape_ascii().to_string());
            ensure!(p.as_ref() == data, "{what} changes the bytes of {}", data.escape_ascii());
        }
        Err(e) => {
            ensure!(has(perr, ename(&e)), "{what} refuses {} with {e:?}, expected {perr:?}", data.escape_ascii());
            ensure!(!e.to_string().is_empty(), "empty error text");
        }
    }
    Ok(())
}
/// The same string through every fixed-size array conversion.
fn arrays(data: &[u8], perr: &[Value]) -> Res {
    macro_rules! a {
        ($($n:literal)*) => { match data.len() { $($n => {
            let x: [u8; $n] = data.try_into().unwrap();
            conv("Path from an array", Path::try_from(&x), data, perr)?;
            conv("PathBuf from an array", PathBuf::try_from(&x), data, perr)?;
        })* _ => {} } };
    }
    a!(0 1 2 3 4 5 6 254 255 256 257 258);
    Ok(())
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn value_checks(data: &[u8], want: &[(String, Vec<u8>)], abs: bool) -> Res {
    let p = Path::try_from(data).unwrap();
    let b = PathBuf::try_from(data).unwrap();
    ensure!(Path::new(data) == data && PathBuf::new(data) == data, "new() differs from try_from");
    ensure!(p.is_absolute() == abs && b.is_absolute() == abs, "is_absolute of {p:?}");
    let limit = data.len() + 1;
    for (what, got) in [("Path", actual(p.components(), limit)?), ("PathBuf", actual(b.components(), limit)?)] {
        ensure!(got == *want, "{what} components of {p:?}: {got:?} instead of {want:?}");
    }
    // The iterator stays finished.
    let mut it = p.components();
    while it.next().is_some() {}
    ensure!(it.next().is_none() && it.next().is_none(), "component iterator resumes after its end");
    let lossy = String::from_utf8_lossy(data).into_owned();
    ensure!(p.display().to_string() == lossy && b.display().to_string() == lossy, "display of {p:?}");
    ensure!(format!("{p:?}") == debug(data) && format!("{b:?}") == debug(data), "Debug of {p:?}");
    ensure!(p.to_str() == std::str::from_utf8(data) && b.to_str() == std::str::from_utf8(data), "to_str of {p:?}");
    ensure!(p == b && b == p && b.as_path() == p && b.clone() == b && p == data && b == data, "equality of {p:?}");
    ensure!(PathBuf::from(p) == data, "PathBuf::from(Path)");
    ensure!(hash(&p) == hash(&b.as_path()) && hash(&b) == hash(&PathBuf::from(p)), "equal paths hash differently");
    let sp: &std::path::Path = p.into();
    ensure!(sp.as_os_str().as_bytes() == data, "std path from {p:?}");
    let sb: std::path::PathBuf = b.clone().into();
    ensure!(sb.as_os_str().as_bytes() == data, "std path buffer from {p:?}");
    // Agreement with the standard library's POSIX components. (It drops
    // "." except at the start.)
    let std_names: Vec<&[u8]> = sp
        .components()
        .filter_map(|c| match c {
            std::path::Component::Normal(n) => Some(n.as_bytes()),
            std::path::Component::ParentDir => Some(&b".."[..]),
            _ => None,
        })
        .collect();
    let names: Vec<&[u8]> = want.iter().filter(|c| c.0 == "normal" || c.0 == "parent").map(|c| &c.1[..]).collect();
    assert_eq!(std_names, names, "src/adapters: specification disagrees with the standard library");
    Ok(())
}

pub fn run(sc: &Value, cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    let sy = arr(sc, "s");
    let data = bytes(sy, &mut rng);
    let perr = arr(sc, "perr");
    if s(sc, "mode") == "one" {
        conv("Path from a slice", Path::try_from(&data[..]), &data, perr)?;
        conv("PathBuf from a slice", PathBuf::try_from(&data[..]), &data, perr)?;
        conv("PathBuf from a vector", PathBuf::try_from(data.clone()), &data, perr)?;
        let os = OsStr::from_bytes(&data);
        conv("Path from OsStr", Path::try_from(os), &data, perr)?;
        conv("Path from std Path", Path::try_from(std::path::Path::new(os)), &data, perr)?;
        conv("PathBuf from OsString", PathBuf::try_from(OsString::from_vec(data.clone())), &data, perr)?;
        conv("PathBuf from std PathBuf", PathBuf::try_from(std::path::PathBuf::from(os)), &data, perr)?;
        arrays(&data, perr)?;
        if let Ok(t) = std::str::from_utf8(&data) {
            let st = t.to_string();
            conv("Path from str", Path::try_from(t), &data, perr)?;
            conv("Path from String", Path::try_from(&st), &data, perr)?;
            conv("PathBuf from str", PathBuf::try_from(t), &data, perr)?;
            conv("PathBuf from &String", PathBuf::try_from(&st), &data, perr)?;
            conv("PathBuf from String", PathBuf::try_from(st), &data, perr)?;
        }
        // Directory entry names.
        let nerr = arr(sc, "nerr");
        let name = |what: &str, r: Result<&[u8], DirEntryNameError>| -> Res {
            match r {
                Ok(n) => {
                    ensure!(nerr.is_empty(), "{what} accepts {} ({nerr:?})", data.escape_ascii());
                    ensure!(n == data, "{what} changes the bytes");
                }
                Err(e) => {
                    let k = format!("{e:?}");
                    ensure!(has(nerr, &k), "{what} refuses {} with {k}, expected {nerr:?}", data.escape_ascii());
                    ensure!(!e.to_string().is_empty(), "empty error text");
                }
            }
            Ok(())
        };
        name("DirEntryName from a slice", DirEntryName::try_from(&data[..]).as_ref().map(|n| n.as_ref()).map_err(|e| *e))?;
        if let Ok(t) = std::str::from_utf8(&data) {
            name("DirEntryName from str", DirEntryName::try_from(t).as_ref().map(|n| n.as_ref()).map_err(|e| *e))?;
        }
        match Component::normal(&data) {
            Ok(Component::Normal(n)) => name("Component::normal", Ok(n.as_ref()))?,
            Ok(c) => return Err(format!("Component::normal returned {c:?}")),
            Err(e) => name("Component::normal", Err(e))?,
        }
        if let Ok(n) = DirEntryName::try_from(&data[..]) {
            ensure!(n == data && n.as_str() == std::str::from_utf8(&data), "name {n:?}: bytes or text");
            ensure!(n.display().to_string() == String::from_utf8_lossy(&data), "display of name {n:?}");
            ensure!(format!("{n:?}") == debug(&data), "Debug of name {n:?}");
        }
        cx.count("strings");
        if !perr.is_empty() {
            ensure!(quiet(|| Path::new(&data).is_absolute()).is_none(), "Path::new accepts {}", data.escape_ascii());
            ensure!(quiet(|| PathBuf::new(&data).is_absolute()).is_none(), "PathBuf::new accepts {}", data.escape_ascii());
            cx.count("refused");
            return Ok(());
        }
        let want = comps(arr(sc, "comps"), sy, &data);
        value_checks(&data, &want, b(sc, "abs"))?;
        // Rebuilding by push.
        let mut r = PathBuf::empty();
        for (_, n) in &want {
            r.push(n);
        }
        let got = actual(r.components(), data.len() + 1)?;
        ensure!(got == want, "pushing the components of {:?} one by one gives {r:?}", Path::new(&data));
        let wr = arr(sc, "rejoin");
        ensure!(r.as_ref().len() == wr.iter().map(width).sum::<usize>(), "rejoined length of {:?}: {r:?}", Path::new(&data));
        return Ok(());
    }
    let ty = arr(sc, "t");
    let td = bytes(ty, &mut rng);
    let a = Path::new(&data);
    let ab = PathBuf::new(&data);
    let byte_cmp = data.cmp(&td);
    let res = [
        quiet(|| a.join(&td)),
        quiet(|| ab.join(&td)),
        quiet(|| {
            let mut x = ab.clone();
            x.push(&td);
            x
        }),
    ];
    ensure!(ab == data, "join or push changed its receiver");
    if !perr.is_empty() {
        ensure!(res.iter().all(|r| r.is_none()), "join or push accepts {} ({perr:?})", td.escape_ascii());
        cx.count("join_refused");
        return Ok(());
    }
    let t = Path::new(&td);
    let tb = PathBuf::new(&td);
    ensure!((a == t) == byte_cmp.is_eq() && (ab == tb) == byte_cmp.is_eq(), "equality of {a:?} and {t:?}");
    ensure!(a.cmp(&t) == byte_cmp && ab.cmp(&tb) == byte_cmp, "ordering of {a:?} and {t:?}");
    let jsy = arr(sc, "joined");
    // Bytes of the joined path from the symbol-level result.
    let mut want = vec![];
    let tail_at = jsy.len() - ty.len();
    if tail_at > 0 {
        want.extend(&data);
        if tail_at > sy.len() {
            want.push(b'/');
        }
    }
    want.extend(&td);
    assert_eq!(want.len(), jsy.iter().map(width).sum::<usize>(), "src/adapters: joined length");
    for (k, r) in res.iter().enumerate() {
        let what = ["Path::join", "PathBuf::join", "PathBuf::push"][k];
        let Some(r) = r else {
            return Err(format!("{what} panics on {a:?} and {t:?}"));
        };
        ensure!(r.as_ref() == want, "{what} of {a:?} and {t:?} is {r:?}");
    }
    let wc = comps(arr(sc, "comps"), jsy, &want);
    value_checks(&want, &wc, want.first() == Some(&b'/'))?;
    cx.count("joins");
    Ok(())
}

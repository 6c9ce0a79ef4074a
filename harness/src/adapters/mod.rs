use crate::disk::CtlRef;
use crate::enc::{Img, Rng};
use crate::world::LMap;
use ext4_view::{Ext4, Ext4Error};
use serde_json::Value;
use std::collections::BTreeMap;

mod corrupt;
mod csum;
mod dirs;
mod filemap;
mod io;
mod handle;
pub mod journal;
mod loadt;
mod many;
mod meta;
mod ops;
mod path;
mod pathval;
mod view;

pub struct Cx {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub prop: String,
    pub counters: BTreeMap<String, u64>,
    /// The recorded execution, for validation against the specification.
    pub trace: Option<Value>,
}
impl Cx {
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
}
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn run(module: &str, sc: &Value, cx: &mut Cx) -> Res {
    match module {
        "dirblock" => dirs::dirblock(sc, cx),
        "htree" => dirs::htree(sc, cx),
        "journal" => journal::journal(sc, cx),
        "jfmt" => journal::jfmt(sc, cx),
        "symlink" => ops::symlink(sc, cx),
        "ops" => ops::ops(sc, cx),
        "geometry" => meta::geometry(sc, cx),
        "filemap" => filemap::extents(sc, cx),
        "blkmap" => filemap::blkmap(sc, cx),
        "handle" => handle::run(sc, cx),
        "path" => path::resolve(sc, cx),
        "csum" => csum::run(sc, cx),
        "load" => loadt::run(sc, cx),
        "pathval" => pathval::run(sc, cx),
        "corrupt" => corrupt::run(sc, cx),
        "graph" => corrupt::graph(sc, cx),
        "io" => io::run(sc, cx),
        "cache" => io::cache(sc, cx),
        "view" => view::run(sc, cx),
        "many" => many::run(sc, cx),
        "pathlim" => path::limits(sc, cx),
        _ => panic!("src/adapters: unknown module {module}"),
    }
}
/// Adapters whose filesystems are sometimes loaded through a journal.
pub fn may_journalize(module: &str) -> bool {
    matches!(
        module,
        "dirblock" | "htree" | "symlink" | "ops" | "geometry" | "filemap" | "blkmap" | "handle" | "path" | "csum" | "view" | "many"
    )
}
// ---- JSON helpers
pub fn u(v: &Value, k: &str) -> u64 {
    v[k].as_u64().unwrap_or_else(|| panic!("src/adapters: field {k} in {v}"))
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("src/adapters: field {k} in {v}"))
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("src/adapters: field {k} in {v}"))
}
pub fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or_else(|| panic!("src/adapters: field {k} in {v}"))
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    // An empty TLA+ function/sequence may be serialised as [] or {}.
    match &v[k] {
        Value::Array(a) => a,
        Value::Object(o) if o.is_empty() => &[],
        x => panic!("src/adapters: field {k}: {x}"),
    }
}

/// Error class as the specification sees it.
pub fn class(e: &Ext4Error) -> &'static str {
    // Whatever the error, it can be shown, and it shows what the reader said.
    let (text, debug) = (e.to_string(), format!("{e:?}"));
    assert!(!text.is_empty() && !debug.is_empty() && std::error::Error::source(e).is_none(), "error without a description: {debug}");
    match (e, e.as_io()) {
        (Ext4Error::Io(x), Some(io)) => assert!(text.contains(&x.to_string()) && io.to_string() == x.to_string(), "I/O error shown as {text}"),
        (Ext4Error::Io(_), None) => panic!("as_io of an I/O error is None"),
        (_, io) => assert!(io.is_none(), "as_io of {debug} is {io:?}"),
    }
    match e {
        Ext4Error::NotAbsolute => "NotAbsolute",
        Ext4Error::NotASymlink => "NotASymlink",
        Ext4Error::NotFound => "NotFound",
        Ext4Error::IsADirectory => "IsADirectory",
        Ext4Error::NotADirectory => "NotADirectory",
        Ext4Error::IsASpecialFile => "IsASpecialFile",
        Ext4Error::FileTooLarge => "FileTooLarge",
        Ext4Error::NotUtf8 => "NotUtf8",
        Ext4Error::MalformedPath => "MalformedPath",
        Ext4Error::PathTooLong => "PathTooLong",
        Ext4Error::TooManySymlinks => "TooManySymlinks",
        Ext4Error::Encrypted => "Encrypted",
        Ext4Error::Io(_) => "Io",
        Ext4Error::Incompatible(_) => "Incompatible",
        Ext4Error::Corrupt(_) => "Corrupt",
        _ => "Other",
    }
}
pub fn rclass<T>(r: &Result<T, Ext4Error>) -> &'static str {
    match r {
        Ok(_) => "Ok",
        Err(e) => class(e),
    }
}

/// First difference between two byte strings, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("length {} instead of {}", got.len(), want.len());
    }
    match got.iter().zip(want).position(|(a, b)| a != b) {
        Some(i) => format!("first difference at byte {i}: {:#x} instead of {:#x}", got[i], want[i]),
        None => "equal".into(),
    }
}

pub struct FileCheck<'a> {
    pub fs: &'a Ext4,
    pub img: &'a Img,
    pub path: &'a str,
    pub lmap: &'a LMap,
    pub size: u64,
    /// Largest size to read in full.
    pub cap: u64,
    /// Byte positions to seek to.
    pub probes: Vec<u64>,
}
/// Read a file in several ways and compare with the logical map.
pub fn check_file(c: &FileCheck<'_>, cx: &mut Cx) -> Res {
    let bs = u64::from(c.img.bs);
    let m = c.fs.metadata(c.path).map_err(|e| format!("metadata: {e:?}"))?;
    ensure!(m.len() == c.size, "metadata length {} instead of {}", m.len(), c.size);
    if c.size <= c.cap && c.size > 1 << 30 {
        // Too large to hold twice.
        let got = c.fs.read(c.path).map_err(|e| format!("read: {e:?}"))?;
        ensure!(got.len() as u64 == c.size, "read() returned {} bytes of {}", got.len(), c.size);
        let mut want = vec![0; 1 << 22];
        for (i, part) in got.chunks(1 << 22).enumerate() {
            c.lmap.bytes(c.img, (i as u64) << 22, &mut want[..part.len()]);
            ensure!(part == &want[..part.len()], "read() at {}: {}", i << 22, diff(part, &want[..part.len()]));
        }
        cx.count("whole_reads_large");
    } else if c.size <= c.cap {
        let mut want = vec![0; c.size as usize];
        c.lmap.bytes(c.img, 0, &mut want);
        let got = c.fs.read(c.path).map_err(|e| format!("read: {e:?}"))?;
        ensure!(got == want, "read(): {}", diff(&got, &want));
        cx.count("whole_reads");
        // Sequential reads through a handle.
        let step = match cx.rng.below(6) {
            0 if c.size < 20_000 => 1,
            1 if c.size < 200_000 => 7,
            2 => bs as usize - 1,
            3 => bs as usize,
            4 => bs as usize + 1,
            _ => 3 * bs as usize + 17,
        };
        let mut f = c.fs.open(c.path).map_err(|e| format!("open: {e:?}"))?;
        let mut got = Vec::new();
        let mut buf = vec![0xCC; step];
        loop {
            let n = f.read_bytes(&mut buf).map_err(|e| format!("read_bytes at {}: {e:?}", got.len()))?;
            if n == 0 {
                break;
            }
            ensure!(n <= buf.len(), "read_bytes returned {n} for a buffer of {}", buf.len());
            got.extend_from_slice(&buf[..n]);
            ensure!(f.position() == got.len() as u64, "position {} after {} bytes", f.position(), got.len());
            ensure!(got.len() as u64 <= c.size, "read past the end: {} of {}", got.len(), c.size);
        }
        ensure!(got == want, "sequential read_bytes({step}): {}", diff(&got, &want));
        cx.count("sequential_reads");
    }
    let mut f = c.fs.open(c.path).map_err(|e| format!("open: {e:?}"))?;
    let mut probes = c.probes.clone();
    if c.size > 1 << 32 && !probes.is_empty() {
        // Where what remains does not fit 32 bits.
        let back = (1 + cx.rng.below(c.size >> 32)) << 32;
        probes.push(c.size - back + if cx.rng.chance(1, 2) { 0 } else { cx.rng.below(bs) });
        cx.count("probes_wide");
    }
    for &p in &probes {
        f.seek_to(p).map_err(|e| format!("seek_to({p}): {e:?}"))?;
        ensure!(f.position() == p, "position {} after seek_to({p})", f.position());
        let want_n = (bs + 9).min(c.size.saturating_sub(p)) as usize;
        let mut want = vec![0; want_n];
        c.lmap.bytes(c.img, p, &mut want);
        let mut got = vec![0xCC; bs as usize + 9];
        let mut n = 0;
        while n < got.len() {
            let k = f.read_bytes(&mut got[n..]).map_err(|e| format!("read_bytes at {}: {e:?}", p + n as u64))?;
            if k == 0 {
                break;
            }
            n += k;
        }
        ensure!(n == want_n, "read {n} bytes at {p} instead of {want_n} (size {})", c.size);
        got.truncate(n);
        ensure!(got == want, "after seek_to({p}): {}", diff(&got, &want));
        ensure!(f.position() == p + n as u64, "position {} after reading {n} at {p}", f.position());
        cx.count("probes");
    }
    Ok(())
}

pub fn check_no_oob(ctl: &CtlRef) -> Res {
    let c = ctl.borrow();
    ensure!(c.oob.is_empty(), "reader request outside the filesystem: {:?}", c.oob[0]);
    Ok(())
}

//! C05 / C14: the journal.
use super::dirs::{SEED, groups};
use super::*;
use crate::ensure;
use crate::enc::*;
use crate::jenc::*;
use crate::world::*;
use ext4_view::FileType;

/// What a journaled block is used for.
#[derive(Clone, Debug)]
enum Role {
    /// Block `idx` of a file whose blocks are `blks`.
    Data { path: String, blks: Vec<u64>, idx: usize, size: u64 },
    Inode { path: String, ino: u32, spec: InodeSpec },
    Dir { path: String, ino: u32, generation: u32, first: bool, ents: Vec<Vec<u8>> },
    HtLeaf { path: String, ino: u32, generation: u32 },
    HtRoot { path: String, ino: u32, generation: u32, leaves: Vec<(u32, Vec<u8>, u32)> },
    Extent { path: String, seed: u32, runs: Vec<u64>, len: u16 },
    Indirect { path: String, runs: Vec<u64>, len: u64, direct: Vec<u64> },
    Symlink { path: String, size: usize },
}
pub struct Jw {
    pub w: World,
    roles: Vec<(u64, Role)>,
    /// inode that directory entries point at, with its uid
    pub targets: Vec<(u32, u32)>,
}
const NT: u32 = 16;

fn target_of(ver: u64) -> usize {
    (ver % u64::from(NT)) as usize
}

impl Jw {
    pub fn new(p: &Profile, rng: &mut Rng) -> Self {
        let mut r = rng.clone();
        let mut cfg = make_cfg(p, &mut r);
        cfg.hash_seed = SEED;
        cfg.compat |= COMPAT_JOURNAL;
        cfg.incompat |= INCOMPAT_RECOVER;
        let mut w = World::with_cfg(cfg, r);
        let mut targets = vec![];
        for k in 0..NT {
            let mut s = InodeSpec::new(S_IFREG | 0o640);
            s.uid = 0x5000 + k;
            let ino = w.ino();
            w.b.put_inode(ino, &s);
            targets.push((ino, s.uid));
        }
        Self { w, roles: vec![], targets }
    }
    /// A block for a role; beyond 2^32 in huge filesystems.
    fn block(&mut self, rng: &mut Rng) -> u64 {
        if self.w.b.cfg.blocks > (1 << 32) && rng.chance(2, 3) {
            let mut b = self.w.b.high() + 5000 + rng.below(1_000_000);
            while self.w.b.reserved.contains(&b) {
                b += 1;
            }
            self.w.b.reserved.insert(b);
            b
        } else {
            self.w.b.alloc()
        }
    }
    pub fn add_role(&mut self, b: usize, rng: &mut Rng) {
        let bs = self.w.bs();
        let kind = rng.below(8);
        let name = format!("r{b}");
        let path = format!("/{name}");
        let generation = rng.next() as u32;
        let huge = self.w.b.cfg.blocks > (1 << 32);
        match kind {
            1 => {
                // An inode in the last group, in a table block of its own.
                let cfg = self.w.b.cfg.clone();
                let per = cfg.bs / u32::from(cfg.inode_size);
                let g = if huge { rng.pick(&[0, 7, 8192]) } else { cfg.groups - 1 };
                let idx = (cfg.ipg - 1).saturating_sub(per * b as u32);
                let ino = g * cfg.ipg + idx + 1;
                let mut s = InodeSpec::new(S_IFREG | 0o600);
                s.generation = generation;
                let pos = self.w.b.inode_pos(ino);
                let blk = pos / bs;
                if self.roles.iter().any(|r| r.0 == blk) || ino <= self.w.next_ino + 4 * per || self.w.b.inode_meta.contains_key(&ino) {
                    return self.add_role(b, rng);
                }
                self.w.link(2, name.as_bytes(), ino, 1);
                // Make sure the table block exists.
                self.w.b.put_inode(ino, &s);
                self.roles.push((blk, Role::Inode { path, ino, spec: s }));
            }
            2 => {
                let ino = self.w.ino();
                self.w.link(2, name.as_bytes(), ino, 2);
                let first = rng.chance(1, 2);
                let mut spec = InodeSpec::new(S_IFDIR | 0o755);
                spec.generation = generation;
                let mut blks = vec![];
                let x = self.block(rng);
                if !first {
                    let d = self.w.b.dir_block(
                        &[
                            Dirent { ino, name: b".".to_vec(), ftype: 2, pad: 0 },
                            Dirent { ino: 2, name: b"..".to_vec(), ftype: 2, pad: 0 },
                        ],
                        ino,
                        generation,
                    );
                    let b0 = self.w.b.alloc();
                    self.w.b.img.set_block(b0, d);
                    blks.push(b0);
                }
                blks.push(x);
                let mut ents = vec![];
                if rng.chance(1, 2) {
                    let z = self.w.b.alloc();
                    let d = self.w.b.dir_block(
                        &[Dirent { ino: self.targets[3].0, name: b"tail".to_vec(), ftype: 1, pad: 0 }],
                        ino,
                        generation,
                    );
                    self.w.b.img.set_block(z, d);
                    blks.push(z);
                    ents.push(b"tail".to_vec());
                }
                spec.size = blks.len() as u64 * bs;
                self.w.extents = huge || rng.chance(1, 2);
                self.w.map_blocks(ino, &mut spec, &blks);
                self.w.b.put_inode(ino, &spec);
                self.roles.push((x, Role::Dir { path, ino, generation, first, ents }));
            }
            3 | 4 => {
                let ino = self.w.ino();
                self.w.link(2, name.as_bytes(), ino, 2);
                let mut spec = InodeSpec::new(S_IFDIR | 0o755);
                spec.generation = generation;
                spec.flags |= FL_INDEX;
                let x = self.block(rng);
                if kind == 3 {
                    // root + a leaf per hash half; the upper leaf is journaled
                    let low = self.w.b.alloc();
                    let d = self.w.b.dir_block(&[], ino, generation);
                    self.w.b.img.set_block(low, d);
                    let r0 = self.w.b.dx_root(ino, generation, 2, 1, 0, &[(0, 1), (2, 2)]);
                    let root = self.w.b.alloc();
                    self.w.b.img.set_block(root, r0);
                    spec.size = 3 * bs;
                    self.w.extents = huge || rng.chance(1, 2);
                    self.w.map_blocks(ino, &mut spec, &[root, low, x]);
                    self.roles.push((x, Role::HtLeaf { path, ino, generation }));
                } else {
                    // The journaled root selects which leaf serves a name.
                    let g = groups(1, true);
                    let nm = g[rng.below(20) as usize].names[0].clone();
                    let mut leaves = vec![];
                    let mut blks = vec![x];
                    for k in 0..4u32 {
                        let t = &self.targets[k as usize + 4];
                        let d = self.w.b.dir_block(
                            &[Dirent { ino: t.0, name: nm.clone(), ftype: 1, pad: 0 }],
                            ino,
                            generation,
                        );
                        leaves.push((k + 1, nm.clone(), t.1));
                        let lb = self.w.b.alloc();
                        self.w.b.img.set_block(lb, d);
                        blks.push(lb);
                    }
                    spec.size = 5 * bs;
                    self.w.extents = huge || rng.chance(1, 2);
                    self.w.map_blocks(ino, &mut spec, &blks);
                    self.roles.push((x, Role::HtRoot { path, ino, generation, leaves }));
                }
                self.w.b.put_inode(ino, &spec);
            }
            5 => {
                let ino = self.w.ino();
                self.w.link(2, name.as_bytes(), ino, 1);
                let mut spec = InodeSpec::new(S_IFREG | 0o600);
                spec.generation = generation;
                let x = self.block(rng);
                let len = 3u16;
                let runs: Vec<u64> = (0..24).map(|_| self.w.b.alloc_run(u64::from(len))).collect();
                spec.size = u64::from(len) * bs - rng.below(bs);
                spec.flags |= FL_EXTENTS;
                let node = ExtNode::Index(vec![(0, ExtNode::Leaf(vec![]), x)]);
                spec.iblock = self.w.b.extent_root(&node, ino, generation);
                self.w.b.img.blocks.remove(&x);
                self.w.b.put_inode(ino, &spec);
                let seed = self.w.b.inode_seed(ino, generation);
                self.roles.push((x, Role::Extent { path, seed, runs, len }));
            }
            6 if !huge => {
                let ino = self.w.ino();
                self.w.link(2, name.as_bytes(), ino, 1);
                let mut spec = InodeSpec::new(S_IFREG | 0o600);
                spec.generation = generation;
                let len = 3u64;
                let runs: Vec<u64> = (0..24).map(|_| self.w.b.alloc_run(len)).collect();
                let direct: Vec<u64> = (0..12).map(|_| self.w.b.alloc()).collect();
                let x = self.w.b.alloc();
                for (i, d) in direct.iter().enumerate() {
                    p32(&mut spec.iblock, 4 * i, *d as u32);
                }
                p32(&mut spec.iblock, 48, x as u32);
                spec.size = (12 + len) * bs - rng.below(bs);
                self.w.b.put_inode(ino, &spec);
                self.roles.push((x, Role::Indirect { path, runs, len, direct }));
            }
            7 => {
                let ino = self.w.ino();
                self.w.link(2, name.as_bytes(), ino, 7);
                let mut spec = InodeSpec::new(S_IFLNK | 0o777);
                spec.generation = generation;
                let x = self.block(rng);
                let size = rng.range(60, bs.min(4000) - 1) as usize;
                spec.size = size as u64;
                self.w.extents = huge || rng.chance(1, 2);
                self.w.map_blocks(ino, &mut spec, &[x]);
                self.w.b.put_inode(ino, &spec);
                self.roles.push((x, Role::Symlink { path, size }));
            }
            _ => {
                let ino = self.w.ino();
                self.w.link(2, name.as_bytes(), ino, 1);
                let mut spec = InodeSpec::new(S_IFREG | 0o600);
                spec.generation = generation;
                let n = 1 + rng.below(4) as usize;
                let idx = rng.below(n as u64) as usize;
                let mut blks: Vec<u64> = if rng.chance(2, 3) {
                    let s = self.w.b.alloc_run(n as u64);
                    (s..s + n as u64).collect()
                } else {
                    (0..n).map(|_| self.w.b.alloc()).collect()
                };
                if huge {
                    blks[idx] = self.block(rng);
                }
                spec.size = n as u64 * bs - rng.below(bs);
                let size = spec.size;
                self.w.extents = huge || rng.chance(1, 2);
                self.w.map_blocks(ino, &mut spec, &blks);
                self.w.b.put_inode(ino, &spec);
                self.roles.push((blks[idx], Role::Data { path, blks, idx, size }));
            }
        }
    }
    pub fn blk(&self, b: usize) -> u64 {
        self.roles[b].0
    }
    /// The contents of block `b` in version `ver`.
    pub fn content(&self, b: usize, ver: u64) -> Vec<u8> {
        let bs = self.w.b.bs();
        let (blk, role) = &self.roles[b];
        match role {
            Role::Data { .. } => {
                let mut d = vec![0; bs];
                fill_bytes(mix(ver ^ 0x77), bs as u32, *blk, 0, &mut d);
                d[0] = 0; // never the journal magic
                d
            }
            Role::Inode { ino, spec, .. } => {
                let mut d = self.w.b.img.get_block(*blk);
                let mut s = spec.clone();
                s.uid = 0x9000 + ver as u32;
                s.size = 0x1_0000_0000 * (ver % 7) + ver;
                let x = self.w.b.inode_bytes(*ino, &s);
                let o = (self.w.b.inode_pos(*ino) % bs as u64) as usize;
                d[o..o + x.len()].copy_from_slice(&x);
                d
            }
            Role::Dir { ino, generation, first, .. } => {
                let mut e = vec![];
                if *first {
                    e.push(Dirent { ino: *ino, name: b".".to_vec(), ftype: 2, pad: 0 });
                    e.push(Dirent { ino: 2, name: b"..".to_vec(), ftype: 2, pad: 0 });
                }
                e.push(Dirent { ino: self.targets[target_of(ver)].0, name: b"same".to_vec(), ftype: 1, pad: 4 * (ver as usize % 5) });
                e.push(Dirent { ino: self.targets[0].0, name: format!("v{ver}").into_bytes(), ftype: 1, pad: 0 });
                self.w.b.dir_block(&e, *ino, *generation)
            }
            Role::HtLeaf { ino, generation, .. } => {
                let e = vec![
                    Dirent { ino: self.targets[target_of(ver)].0, name: b"same".to_vec(), ftype: 1, pad: 0 },
                    Dirent { ino: self.targets[0].0, name: format!("v{ver}").into_bytes(), ftype: 1, pad: 0 },
                ];
                self.w.b.dir_block(&e, *ino, *generation)
            }
            Role::HtRoot { ino, generation, leaves, .. } => {
                let k = (mix(ver) % 4) as usize;
                self.w.b.dx_root(*ino, *generation, 2, 1, 0, &[(0, leaves[k].0)])
            }
            Role::Extent { seed, runs, len, .. } => {
                let mut t = Builder::new_shadow(&self.w.b);
                let r = runs[(mix(ver) % 24) as usize];
                let node = ExtNode::Leaf(vec![Ext { lblk: 0, len: *len, phys: r, unwritten: false }]);
                t.put_extent_block(*blk, &node, *seed);
                t.img.get_block(*blk)
            }
            Role::Indirect { runs, len, .. } => {
                let mut d = vec![0u8; bs];
                let r = runs[(mix(ver) % 24) as usize];
                for i in 0..*len {
                    p32(&mut d, 4 * i as usize, (r + i) as u32);
                }
                d
            }
            Role::Symlink { size, .. } => {
                let mut d = vec![0u8; bs];
                let t = self.target(b, ver, *size);
                d[..*size].copy_from_slice(&t);
                d
            }
        }
    }
    fn target(&self, b: usize, ver: u64, size: usize) -> Vec<u8> {
        let mut t = vec![];
        let mut k = 0u64;
        while t.len() < size {
            let c = mix(ver ^ (b as u64) << 32 ^ k);
            k += 1;
            t.extend_from_slice(format!("{c:016x}/").as_bytes());
        }
        t.truncate(size);
        t
    }
    /// Observe version `ver` of block `b` through the library.
    pub fn observe(&self, fs: &Ext4, img: &Img, b: usize, ver: u64) -> Res {
        let bs = u64::from(img.bs);
        let (_, role) = &self.roles[b];
        let er = |what: &str, e: Ext4Error| format!("{what}: {e:?}");
        match role {
            Role::Data { path, blks, idx, size } => {
                let got = fs.read(path.as_str()).map_err(|e| er(path, e))?;
                let mut want = vec![];
                for (i, k) in blks.iter().enumerate() {
                    want.extend_from_slice(&if i == *idx { self.content(b, ver) } else { img.get_block(*k) });
                }
                want.truncate(*size as usize);
                if got != want {
                    let o = idx * bs as usize;
                    let seen = (0..200u64).find(|v| {
                        let c = self.content(b, *v);
                        got.len() > o && got[o..] == c[..(got.len() - o).min(c.len())]
                    });
                    return Err(format!("{path}: {} (block shows version {seen:?} instead of {ver})", diff(&got, &want)));
                }
            }
            Role::Inode { path, .. } => {
                let m = fs.symlink_metadata(path.as_str()).map_err(|e| er(path, e))?;
                let want = (0x9000 + ver as u32, 0x1_0000_0000 * (ver % 7) + ver);
                ensure!((m.uid(), m.len()) == want, "{path}: inode version {} instead of {ver}", i64::from(m.uid()) - 0x9000);
            }
            Role::Dir { path, first, ents, .. } => {
                let mut want = vec![b".".to_vec(), b"..".to_vec(), b"same".to_vec(), format!("v{ver}").into_bytes()];
                want.extend(ents.iter().cloned());
                let _ = first;
                let mut got = vec![];
                for e in fs.read_dir(path.as_str()).map_err(|e| er(path, e))? {
                    got.push(e.map_err(|e| er(path, e))?.file_name().as_ref().to_vec());
                }
                ensure!(got == want, "{path}: listing {:?} instead of version {ver}", got.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>());
                self.entry(fs, path, ver)?;
            }
            Role::HtLeaf { path, .. } => self.entry(fs, path, ver)?,
            Role::HtRoot { path, leaves, .. } => {
                let (_, nm, uid) = &leaves[(mix(ver) % 4) as usize];
                let p = dirs::bytes_path(path, nm);
                let m = fs.metadata(&p).map_err(|e| er(path, e))?;
                ensure!(m.uid() == *uid, "{path}: index root leads to uid {:#x} instead of {uid:#x} (version {ver})", m.uid());
            }
            Role::Extent { path, runs, .. } | Role::Indirect { path, runs, .. } => {
                let got = fs.read(path.as_str()).map_err(|e| er(path, e))?;
                let r = runs[(mix(ver) % 24) as usize];
                let mut want = vec![];
                if let Role::Indirect { direct, .. } = role {
                    for d in direct {
                        want.extend_from_slice(&img.get_block(*d));
                    }
                }
                for i in 0..3 {
                    want.extend_from_slice(&img.get_block(r + i));
                }
                let m = fs.metadata(path.as_str()).map_err(|e| er(path, e))?;
                want.truncate(m.len() as usize);
                ensure!(got == want, "{path}: {} (mapping of another version than {ver})", diff(&got, &want));
            }
            Role::Symlink { path, size } => {
                let got = fs.read_link(path.as_str()).map_err(|e| er(path, e))?;
                let want = self.target(b, ver, *size);
                ensure!(got.as_ref() == &want[..], "{path}: symlink target of another version than {ver}");
                let m = fs.symlink_metadata(path.as_str()).map_err(|e| er(path, e))?;
                ensure!(m.file_type() == FileType::Symlink, "{path}: not a symlink");
            }
        }
        Ok(())
    }
    fn entry(&self, fs: &Ext4, path: &str, ver: u64) -> Res {
        let p = format!("{path}/same");
        let m = fs.metadata(p.as_str()).map_err(|e| format!("{p}: {e:?}"))?;
        let want = self.targets[target_of(ver)].1;
        ensure!(m.uid() == want, "{p}: uid {:#x} instead of {want:#x} (version {ver})", m.uid());
        let p = format!("{path}/v{ver}");
        ensure!(fs.exists(p.as_str()).map_err(|e| format!("{p}: {e:?}"))?, "{p} (version {ver}) does not exist");
        Ok(())
    }
}

pub fn journal(sc: &Value, cx: &mut Cx) -> Res {
    let home: Vec<u64> = arr(sc, "home").iter().map(|x| x.as_u64().unwrap()).collect();
    let view: Vec<u64> = arr(sc, "view").iter().map(|x| x.as_u64().unwrap()).collect();
    let log = arr(sc, "log");
    let dmg = u(sc, "dmg") as usize;
    let kind = s(sc, "kind");
    let p = cx.rng.pick(PROFILES);
    let mut rng = cx.rng.clone();
    let mut jw = Jw::new(&p, &mut rng);
    for b in 0..home.len() {
        jw.add_role(b, &mut rng);
    }
    let n = log.len() as u64 + 1;
    // The journal inode may be larger than the journal.
    let extra = if rng.chance(1, 4) { 1 + rng.below(5) } else { 0 };
    let jblks = put_journal(&mut jw.w, n + extra, &mut rng);
    // A bystander that is not journaled.
    let by = jw.w.b.alloc();
    let mut spec = InodeSpec::new(S_IFREG | 0o644);
    spec.size = jw.w.bs();
    let ino = jw.w.ino();
    jw.w.link(2, b"by", ino, 1);
    jw.w.extents = true;
    jw.w.map_blocks(ino, &mut spec, &[by]);
    jw.w.b.put_inode(ino, &spec);
    // The root directory must be laid out before contents are computed
    // (inode blocks are copied).
    jw.w.write_linear(2);
    let bs = jw.w.b.bs();
    let mut uuid = [0u8; 16];
    for x in &mut uuid {
        *x = rng.next() as u8;
    }
    let j = Jrn { bs, uuid };
    let base = seq_base(&mut rng);
    let real = |tid: u64| base.wrapping_add(tid as u32).wrapping_sub(1);
    let uuid_style = rng.below(3) as u8;
    let mut blocks: Vec<Vec<u8>> = vec![];
    for e in log {
        let t = s(e, "t");
        let d = match t {
            "junk" => match rng.below(3) {
                0 => vec![0; bs],
                1 => {
                    let mut d = vec![0; bs];
                    fill_bytes(rng.next(), bs as u32, 1, 0, &mut d);
                    d[0] = 0;
                    d
                }
                _ => vec![0xff; bs],
            },
            "desc" => {
                let data: Vec<(u64, Vec<u8>)> = arr(e, "tags")
                    .iter()
                    .map(|x| {
                        let b = x.as_u64().unwrap() as usize - 1;
                        (jw.blk(b), jw.content(b, u(e, "tid")))
                    })
                    .collect();
                let tags: Vec<(u64, &[u8])> = data.iter().map(|x| (x.0, &x.1[..])).collect();
                j.desc(real(u(e, "tid")), &tags, uuid_style, &mut rng)
            }
            "data" => jw.content(u(e, "b") as usize - 1, u(e, "tid")),
            "rev" => {
                let bl: Vec<u64> = arr(e, "bs").iter().map(|x| jw.blk(x.as_u64().unwrap() as usize - 1)).collect();
                j.revoke(real(u(e, "tid")), &bl, &mut rng)
            }
            "commit" => j.commit(real(u(e, "tid")), &mut rng),
            _ => panic!("src/adapters: log record {t}"),
        };
        blocks.push(d);
    }
    let mut damaged = "";
    let mut may_refuse = false;
    if dmg > 0 {
        let d = &mut blocks[dmg - 1];
        let orig = d.clone();
        damaged = match rng.below(10) {
            0 => {
                d.fill(0);
                "zeroed"
            }
            1 => {
                fill_bytes(rng.next(), bs as u32, 3, 0, d);
                "replaced"
            }
            2 => {
                let half = 512 * (1 + rng.below(bs as u64 / 512 - 1)) as usize;
                for x in &mut d[half..] {
                    *x = !*x;
                }
                "torn"
            }
            3 => {
                // a bit in the first bytes
                let k = rng.below(64) as usize;
                d[k] ^= 1 << rng.below(8);
                "header bit"
            }
            4 => {
                let k = bs - 1 - rng.below(16) as usize;
                d[k] ^= 1 << rng.below(8);
                "tail bit"
            }
            5 => {
                // the same kind of block from an earlier pass over the log
                let e = &log[dmg - 1];
                let old = real(u(e, "tid")).wrapping_sub(1 + rng.below(40) as u32);
                match s(e, "t") {
                    "commit" => *d = j.commit(old, &mut rng),
                    "rev" => {
                        let bl: Vec<u64> =
                            arr(e, "bs").iter().map(|x| jw.blk(x.as_u64().unwrap() as usize - 1)).collect();
                        *d = j.revoke(old, &bl, &mut rng);
                    }
                    "desc" => {
                        let data: Vec<(u64, Vec<u8>)> = arr(e, "tags")
                            .iter()
                            .map(|x| {
                                let b = x.as_u64().unwrap() as usize - 1;
                                (jw.blk(b), jw.content(b, u(e, "tid")))
                            })
                            .collect();
                        let tags: Vec<(u64, &[u8])> = data.iter().map(|x| (x.0, &x.1[..])).collect();
                        *d = j.desc(old, &tags, uuid_style, &mut rng);
                    }
                    _ => *d = jw.content(u(e, "b") as usize - 1, 77),
                }
                "stale"
            }
            6 | 7 => {
                // Only the beginning was written.
                let k = rng.pick(&[8, 12, 14, 16, 20, 24, 28, 32, 48, 64, bs / 2]);
                let f = rng.pick(&[0, 0, 0xff]);
                d[k..].fill(f);
                "cut"
            }
            8 => {
                // The checksum was never set, and something is wrong.
                let c = if s(&log[dmg - 1], "t") == "commit" { 16 } else { bs - 4 };
                let f = rng.pick(&[0, 0, 0xff]);
                d[c..c + 4].fill(f);
                let k = rng.pick(&[20, 24, 28, 32, 48, bs / 2, bs - 5]);
                d[k] ^= 1 << rng.below(8);
                "without checksum"
            }
            _ => {
                let k = rng.below(bs as u64) as usize;
                d[k] ^= 1 << rng.below(8);
                "bit"
            }
        };
        // A block that ends in a CRC-32C of itself has the same CRC-32C in
        // every version: such a substitution is invisible by construction.
        if *d == orig || crc32c(0, d) == crc32c(0, &orig) {
            d[bs / 2] ^= 1;
        }
        // Only a block that claims an unknown type may make the journal
        // uninterpretable; any other damage ends the log there.
        may_refuse = d[4..8] != orig[4..8] && d[..4] == orig[..4] && d[8..12] == orig[8..12];
    }
    if dmg > 0 && s(&log[dmg - 1], "t") == "data" && rng.chance(1, 4) {
        // The descriptor was written with a bad checksum for this block.
        let (mut k, mut nth) = (dmg - 1, 0);
        while s(&log[k], "t") == "data" {
            k = (k + log.len() - 1) % log.len();
            nth += 1;
        }
        if s(&log[k], "t") == "desc" {
            let d = &mut blocks[k];
            let mut at = 12;
            for _ in 1..nth {
                at += if d[at + 7] & TAG_SAME_UUID as u8 == 0 { 32 } else { 16 };
            }
            d[at + 12..at + 16].fill(rng.pick(&[0, 0, 0xff]));
            j.tail_csum(d);
            damaged = "badly described";
        }
    }
    for (i, d) in blocks.into_iter().enumerate() {
        jw.w.b.img.set_block(jblks[i + 1], d);
    }
    let start = u(sc, "start") as u32;
    let jsb = j.superblock(n as u32, start, real(u(sc, "seq")), J_64BIT | J_CSUM_V3 | J_REVOKE);
    jw.w.b.img.set_block(jblks[0], jsb);
    for (b, v) in home.iter().enumerate() {
        let d = jw.content(b, *v);
        let blk = jw.blk(b);
        jw.w.b.img.set_block(blk, d);
    }
    let w = std::mem::replace(&mut jw.w, World::new(&p, rng.clone()));
    let shadow = Builder::new_shadow(&w.b);
    let (img, _) = w.finish();
    jw.w.b = shadow;
    let (fs, ctl) = load(&img);
    let fs = match fs {
        Ok(fs) => fs,
        Err(e) => {
            if may_refuse && matches!(class(&e), "Corrupt" | "Incompatible") {
                cx.count("damage_refused");
                return Ok(());
            }
            return Err(format!("load of a crashed filesystem failed: {e:?}"));
        }
    };
    let mut order: Vec<usize> = (0..view.len()).collect();
    if rng.chance(1, 2) {
        order.reverse();
    }
    for _ in 0..2 {
        for b in &order {
            jw.observe(&fs, &img, *b, view[*b])
                .map_err(|e| format!("{kind}{}{damaged}: {e}", if dmg > 0 { " " } else { "" }))?;
            cx.count("observations");
        }
    }
    let got = fs.read("/by").map_err(|e| format!("bystander: {e:?}"))?;
    ensure!(got == img.get_block(by), "a file that is not journaled changed");
    cx.count(&format!("kind_{kind}"));
    check_no_oob(&ctl)
}

/// Journal features and the capacity boundaries of its blocks.
pub fn jfmt(sc: &Value, cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    // Blocks of at most 4 KiB: the boundaries are tens to hundreds of tags.
    let p = rng.pick(&PROFILES.iter().copied().filter(|p| p.bs <= 4096).collect::<Vec<_>>());
    let mut cfg = make_cfg(&p, &mut rng);
    let recover = sc["recover"].as_bool().unwrap();
    cfg.compat |= COMPAT_JOURNAL;
    if recover {
        cfg.incompat |= INCOMPAT_RECOVER;
    }
    let mut w = World::with_cfg(cfg, rng.clone());
    let bs = w.b.bs();
    let mut uuid = [0u8; 16];
    for x in &mut uuid {
        *x = rng.next() as u8;
    }
    let j = Jrn { bs, uuid };
    let us = match s(sc, "uuid") {
        "first" => 0,
        "none" => 1,
        _ => 2,
    };
    let tcap = if us == 2 { (bs - 16) / 32 } else { j.max_tags(us == 0) } as u64;
    let rcap = j.max_revokes() as u64;
    let real = |rest: u64, full: u64, acap: u64, cap: u64| full * cap + if rest + 1 == acap { cap - 1 } else { rest };
    let nw = real(u(sc, "nw"), u(sc, "wblk"), u(sc, "tcap"), tcap);
    let nr = real(u(sc, "nr"), u(sc, "rblk"), u(sc, "rcap"), rcap);
    let total = nw.max(nr);
    let dev = s(sc, "dev");
    let esc = u(sc, "esc");
    let first = w.b.alloc_run(total + 1);
    let last = first + total;
    let ino = w.ino();
    let mut spec = InodeSpec::new(S_IFREG | 0o600);
    spec.size = (total + 1) * bs as u64;
    w.link(2, b"f", ino, 1);
    w.extents = rng.chance(1, 2);
    let blks: Vec<u64> = (first..=last).collect();
    w.map_blocks(ino, &mut spec, &blks);
    w.b.put_inode(ino, &spec);
    // The block of the superblock is logged as well, unchanged.
    let sbblk = 1024 / bs as u64;
    let mut sbdata = vec![0; bs];
    sbdata[1024 % bs..][..1024].copy_from_slice(&w.b.superblock());
    let content = |blk: u64, ver: u64| {
        let mut d = vec![0; bs];
        if blk == sbblk {
            return sbdata.clone();
        }
        fill_bytes(mix(ver ^ 0x9977), bs as u32, blk, 0, &mut d);
        d[0] &= 0x3f;
        d
    };
    let base = seq_base(&mut rng);
    let mut log: Vec<Vec<u8>> = vec![];
    let put = |log: &mut Vec<Vec<u8>>, seq: u32, list: &[(u64, u64)], esc: bool, rng: &mut Rng| {
        for (k, chunk) in list.chunks(tcap as usize).enumerate() {
            let data: Vec<(u64, Vec<u8>)> = chunk.iter().map(|(b, ver)| (*b, content(*b, *ver))).collect();
            let tags: Vec<(u64, &[u8])> = data.iter().map(|x| (x.0, &x.1[..])).collect();
            let mut d = j.desc(seq, &tags, us, rng);
            if esc && k == 0 {
                d[12 + 7] |= TAG_ESCAPED as u8;
                j.tail_csum(&mut d);
            }
            log.push(d);
            log.extend(data.into_iter().map(|x| x.1));
        }
    };
    let mut writes: Vec<u64> = (first..first + nw).collect();
    if rng.chance(1, 2) {
        writes.reverse();
    }
    let mut list: Vec<(u64, u64)> = writes.iter().map(|b| (*b, 1)).collect();
    match s(sc, "dup") {
        "same" => list.insert(0, (first, 7)),
        "split" => put(&mut log, base, &[(first, 7)], false, &mut rng),
        _ => {}
    }
    put(&mut log, base, &list, esc == 1, &mut rng);
    log.push(j.commit(base, &mut rng));
    let two = base.wrapping_add(1);
    let mut revs = vec![];
    let mut rl: Vec<u64> = (first..first + nr).collect();
    if rng.chance(1, 2) {
        rl.reverse();
    }
    for chunk in rl.chunks(rcap as usize) {
        revs.push(j.revoke(two, chunk, &mut rng));
    }
    if s(sc, "revpos") == "before" {
        log.append(&mut revs);
    }
    let mut list = vec![(last, 2)];
    if rng.chance(1, 3) {
        list.insert(rng.below(2) as usize, (sbblk, 9));
    }
    put(&mut log, two, &list, esc == 2, &mut rng);
    log.append(&mut revs);
    log.push(j.commit(two, &mut rng));
    let n = log.len() as u64 + 1 + rng.below(4);
    let slots = n - 1;
    let start = match s(sc, "startat") {
        "first" => 1,
        "middle" => slots / 2,
        "empty" => 1 + rng.below(slots),
        _ => slots,
    };
    let extra = if rng.chance(1, 4) { 1 + rng.below(5) } else { 0 };
    let jblks = put_journal(&mut w, n + extra, &mut rng);
    for b in &jblks {
        w.b.img.set_block(*b, vec![0; bs]);
    }
    for (i, d) in log.into_iter().enumerate() {
        let at = (start - 1 + i as u64) % slots + 1;
        w.b.img.set_block(jblks[at as usize], d);
    }
    let inc = J_64BIT | J_CSUM_V3 | J_REVOKE;
    let mut jsb = j.superblock(
        n as u32,
        if s(sc, "startat") == "empty" { 0 } else { start as u32 },
        base,
        match dev {
            "norevoke" => inc & !J_REVOKE,
            "no64" => inc & !J_64BIT,
            "nocsum" => inc & !J_CSUM_V3,
            "csumv2" => (inc & !J_CSUM_V3) | 8,
            "async" => inc | 4,
            "fastcommit" => inc | 0x20,
            "unknown" => inc | 1 << (6 + rng.below(26)),
            _ => inc,
        },
    );
    match dev {
        "v1" => p32be(&mut jsb, 4, 3),
        "csumtype" => jsb[0x50] = rng.pick(&[0, 1, 2, 3, 5]),
        "jbs" => p32be(&mut jsb, 0xc, rng.pick(&[512, bs as u32 * 2, bs as u32 / 2, 0])),
        "magic" => jsb[rng.below(4) as usize] ^= 1 << rng.below(8),
        "compat" => p32be(&mut jsb, 0x24, 1),
        _ => {}
    }
    j.fix_superblock(&mut jsb);
    if dev == "sbsum" {
        // A byte that nothing else looks at, or the checksum itself.
        let (a, b) = (rng.below(4), rng.below(0x300));
        let k = rng.pick(&[0x14 + a, 0x20, 0x40, 0x54, 0xfc, 0xff, 0x100 + b]) as usize;
        jsb[k] ^= 1 << rng.below(8);
    }
    w.b.img.set_block(jblks[0], jsb);
    let (img, _) = w.finish();
    let (fs, ctl) = load(&img);
    let got = match &fs {
        Ok(_) => "ok",
        Err(e) => class(e),
    };
    cx.count(s(sc, "outcome"));
    let want = match s(sc, "outcome") {
        "corrupt" => "Corrupt",
        "incompatible" => "Incompatible",
        _ => "ok",
    };
    ensure!(got == want, "{dev} recover={recover} escaped={esc}: load gives {got} ({:?}), not {want}", fs.as_ref().err());
    let Ok(fs) = fs else { return check_no_oob(&ctl) };
    let applied = s(sc, "outcome") == "applied";
    let d = fs.read("/f").map_err(|e| format!("read: {e:?}"))?;
    ensure!(d.len() as u64 == spec.size, "length {}", d.len());
    for (k, b) in blks.iter().enumerate() {
        let k64 = k as u64;
        let w = if applied && *b == last {
            content(*b, 2)
        } else if applied && k64 < nw && k64 >= nr {
            content(*b, 1)
        } else {
            img.get_block(*b)
        };
        ensure!(
            d[k * bs..(k + 1) * bs] == w[..],
            "{nw} writes, {nr} revocations, capacities {tcap}/{rcap}: block {k} shows the wrong version"
        );
        cx.count("blocks");
    }
    check_no_oob(&ctl)
}

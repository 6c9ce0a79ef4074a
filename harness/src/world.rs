//! Convenience layer over the encoder: geometry profiles, files, directories.
use crate::disk::{CtlRef, SimDisk};
use crate::enc::*;
use ext4_view::{Ext4, Ext4Error};
use std::collections::BTreeMap;
use std::rc::Rc;

/// Geometry/feature profile.
#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub bs: u32,
    pub csum: bool,
    pub gdt_csum: bool,
    pub is64: bool,
    pub desc_size: u16,
    pub inode_size: u16,
    pub seed_in_sb: bool,
    pub groups: u32,
    pub ipg: u32,
    /// Place data beyond 2^32 blocks.
    pub huge: bool,
}
const fn p(
    name: &'static str, bs: u32, csum: bool, is64: bool, desc_size: u16, inode_size: u16, seed_in_sb: bool,
) -> Profile {
    Profile { name, bs, csum, gdt_csum: false, is64, desc_size, inode_size, seed_in_sb, groups: 2, ipg: 64, huge: false }
}
pub const PROFILES: &[Profile] = &[
    p("1k-csum-64", 1024, true, true, 64, 256, false),
    p("4k-csum-64-seed", 4096, true, true, 64, 256, true),
    p("1k-plain-128", 1024, false, false, 32, 128, false),
    p("2k-csum-32", 2048, true, false, 32, 256, true),
    Profile { gdt_csum: true, ..p("4k-gdtcsum", 4096, false, false, 32, 256, false) },
    Profile { ipg: 256, ..p("64k-csum-64", 65536, true, true, 64, 256, false) },
    p("4k-desc128-i512", 4096, true, true, 128, 512, true),
    p("1k-csum-i1024", 1024, true, true, 64, 1024, false),
    Profile { huge: true, groups: 8200, ipg: 256, ..p("64k-huge", 65536, true, true, 64, 256, true) },
    Profile { ipg: 128, ..p("16k-plain-64", 16384, false, true, 64, 256, false) },
    p("8k-csum-64", 8192, true, true, 64, 512, false),
    p("32k-csum-32", 32768, true, false, 32, 256, false),
];
pub fn profile(name: &str) -> Profile {
    *PROFILES.iter().find(|p| p.name == name).unwrap_or_else(|| panic!("profile {name}"))
}

pub fn make_cfg(p: &Profile, rng: &mut Rng) -> Cfg {
    let mut bpg = p.bs * 8;
    let wide = p.huge && rng.chance(1, 2);
    if wide {
        bpg = 1 << 31; // bigalloc
    }
    let first = if p.bs == 1024 { 1 } else { 0 };
    let blocks = u64::from(p.groups) * u64::from(bpg) + first;
    let mut incompat = INCOMPAT_FILETYPE | INCOMPAT_EXTENTS | INCOMPAT_FLEX_BG;
    if p.is64 {
        incompat |= INCOMPAT_64BIT;
    }
    if p.seed_in_sb {
        incompat |= INCOMPAT_CSUM_SEED;
    }
    let mut ro = RO_SPARSE | RO_LARGE_FILE | RO_HUGE_FILE | RO_DIR_NLINK | RO_EXTRA_ISIZE;
    if p.csum {
        ro |= RO_METADATA_CSUM;
    }
    if wide {
        ro |= RO_BIGALLOC;
    }
    if p.gdt_csum {
        ro |= RO_GDT_CSUM;
    }
    let mut uuid = [0u8; 16];
    for b in &mut uuid {
        *b = rng.next() as u8;
    }
    let mut label = [0u8; 16];
    label[..6].copy_from_slice(b"vol-01");
    let mut hash_seed = [0u32; 4];
    for b in &mut hash_seed {
        *b = rng.next() as u32;
    }
    let mut cfg = Cfg {
        bs: p.bs,
        inode_size: p.inode_size,
        ipg: p.ipg,
        bpg,
        groups: p.groups,
        desc_size: p.desc_size,
        blocks,
        incompat,
        ro_compat: ro,
        compat: COMPAT_EXT_ATTR | COMPAT_DIR_INDEX,
        csum_seed: if rng.chance(1, 8) { rng.pick(&[0, !0]) } else { rng.next() as u32 },
        uuid,
        label,
        hash_seed,
        def_hash_version: 1,
        s_flags: 1,
        itable: vec![],
        journal_ino: 8,
        first_data_block: first as u32,
        fill_seed: rng.next() | 1,
    };
    // Inode tables: put them at scattered places, not in order.
    let itb = (u64::from(cfg.ipg) * u64::from(cfg.inode_size)).div_ceil(u64::from(cfg.bs));
    let base = cfg.after_gdt() + 3 + rng.below(5);
    let k = p.groups.min(if p.huge { 8 } else { 64 });
    let mul = [5, 7, 11].into_iter().find(|m| k % m != 0).unwrap();
    for g in 0..k {
        let slot = u64::from((g * mul + 3) % k);
        cfg.itable.push(base + slot * (itb + 2));
    }
    if p.huge {
        // last table beyond 2^32
        let n = cfg.itable.len();
        cfg.itable[0] = (1 << 32) + 77 + if wide { 1 << 28 } else { 0 };
        cfg.itable[n - 1] = blocks - itb - 5;
    }
    cfg
}

/// Logical-to-physical run-length map of a file: (number of blocks, physical start or None for zeros)
#[derive(Clone, Debug, Default)]
pub struct LMap(pub Vec<(u64, Option<u64>)>);
impl LMap {
    pub fn push(&mut self, n: u64, p: Option<u64>) {
        if n > 0 {
            self.0.push((n, p));
        }
    }
    /// Physical block of a logical block (None = zeros).
    pub fn get(&self, mut l: u64) -> Option<u64> {
        for (n, p) in &self.0 {
            if l < *n {
                return p.map(|p| p + l);
            }
            l -= n;
        }
        None
    }
    /// Expected contents at a byte range.
    pub fn bytes(&self, img: &Img, pos: u64, dst: &mut [u8]) {
        let bs = u64::from(img.bs);
        let mut done = 0usize;
        // Locate the starting run.
        let mut runs = self.0.iter();
        let mut cur = runs.next().copied();
        let mut start = 0u64; // logical block at which `cur` starts
        while done < dst.len() {
            let at = pos + done as u64;
            let l = at / bs;
            let off = (at % bs) as usize;
            let n = (bs as usize - off).min(dst.len() - done);
            while let Some((len, _)) = cur {
                if l >= start + len {
                    start += len;
                    cur = runs.next().copied();
                } else {
                    break;
                }
            }
            match cur {
                Some((_, Some(p))) => img.block_bytes(p + (l - start), off, &mut dst[done..done + n]),
                _ => dst[done..done + n].fill(0),
            }
            done += n;
        }
    }
}

pub struct World {
    pub b: Builder,
    pub dirs: BTreeMap<u32, DirSpec>,
    pub next_ino: u32,
    pub rng: Rng,
    /// Extents (true) or block maps for directories and plain files.
    pub extents: bool,
}
#[derive(Clone, Debug)]
pub struct DirSpec {
    pub parent: u32,
    pub ents: Vec<Dirent>,
    pub meta: InodeSpec,
}

impl World {
    pub fn new(p: &Profile, rng: Rng) -> Self {
        let mut r = rng.clone();
        let cfg = make_cfg(p, &mut r);
        Self::with_cfg(cfg, r)
    }
    pub fn with_cfg(cfg: Cfg, rng: Rng) -> Self {
        let mut w = Self { b: Builder::new(cfg), dirs: BTreeMap::new(), next_ino: 11, rng, extents: true };
        let meta = InodeSpec { ..InodeSpec::new(S_IFDIR | 0o755) };
        w.dirs.insert(2, DirSpec { parent: 2, ents: vec![], meta });
        w
    }
    pub fn bs(&self) -> u64 {
        u64::from(self.b.cfg.bs)
    }
    pub fn ino(&mut self) -> u32 {
        let i = self.next_ino;
        self.next_ino += 1;
        assert!(i <= self.b.cfg.ipg * self.b.cfg.groups);
        i
    }
    pub fn link(&mut self, dir: u32, name: &[u8], ino: u32, ftype: u8) {
        self.dirs.get_mut(&dir).unwrap().ents.push(Dirent { ino, name: name.to_vec(), ftype, pad: 0 });
    }
    pub fn mkdir(&mut self, parent: u32, name: &[u8]) -> u32 {
        let ino = self.ino();
        self.link(parent, name, ino, 2);
        let meta = InodeSpec::new(S_IFDIR | 0o755);
        self.dirs.insert(ino, DirSpec { parent, ents: vec![], meta });
        ino
    }
    /// Add a non-directory inode under `parent`.
    pub fn add(&mut self, parent: u32, name: &[u8], spec: &InodeSpec) -> u32 {
        let ino = self.ino();
        self.link(parent, name, ino, ftype_of_mode(spec.mode));
        self.b.put_inode(ino, spec);
        ino
    }
    /// A regular file with `data` in freshly allocated blocks.
    pub fn file_data(&mut self, parent: u32, name: &[u8], mode: u16, data: &[u8]) -> u32 {
        let ino = self.ino();
        self.link(parent, name, ino, ftype_of_mode(mode));
        let spec = self.data_inode(ino, mode, data);
        self.b.put_inode(ino, &spec);
        ino
    }
    pub fn data_inode(&mut self, ino: u32, mode: u16, data: &[u8]) -> InodeSpec {
        let bs = self.b.bs();
        let mut blks = vec![];
        for c in data.chunks(bs) {
            let mut d = c.to_vec();
            // slack after EOF is junk
            d.resize(bs, 0xEE);
            let blk = self.b.alloc();
            self.b.img.set_block(blk, d);
            blks.push(blk);
        }
        let mut spec = InodeSpec::new(mode);
        spec.size = data.len() as u64;
        spec.generation = self.rng.next() as u32;
        self.map_blocks(ino, &mut spec, &blks);
        spec
    }
    pub fn symlink(&mut self, parent: u32, name: &[u8], target: &[u8]) -> u32 {
        if target.len() < 60 {
            let mut s = InodeSpec::new(S_IFLNK | 0o777);
            s.size = target.len() as u64;
            // junk after the target
            s.iblock = [0x2f; 60];
            s.iblock[..target.len()].copy_from_slice(target);
            if target.len() < 60 {
                s.iblock[target.len()] = 0;
            }
            self.add(parent, name, &s)
        } else {
            self.file_data(parent, name, S_IFLNK | 0o777, target)
        }
    }
    /// Map consecutive logical blocks to the given physical blocks.
    pub fn map_blocks(&mut self, ino: u32, spec: &mut InodeSpec, blks: &[u64]) {
        let pairs: Vec<(u64, u64)> = blks.iter().enumerate().map(|(i, b)| (i as u64, *b)).collect();
        if self.extents {
            self.map_extents(ino, spec, &pairs_to_extents(&pairs));
        } else {
            self.map_blockmap(spec, &pairs);
        }
    }
    pub fn map_extents(&mut self, ino: u32, spec: &mut InodeSpec, exts: &[Ext]) {
        spec.flags |= FL_EXTENTS;
        let per = (self.b.bs() - 12) / 12;
        let node = if exts.len() <= 4 {
            ExtNode::Leaf(exts.to_vec())
        } else {
            let kids: Vec<_> = exts
                .chunks(per)
                .map(|c| {
                    let blk = self.b.alloc();
                    (c[0].lblk, ExtNode::Leaf(c.to_vec()), blk)
                })
                .collect();
            if kids.len() <= 4 {
                ExtNode::Index(kids)
            } else {
                let top: Vec<_> = kids
                    .chunks(per)
                    .map(|c| {
                        let blk = self.b.alloc();
                        (c[0].0, ExtNode::Index(c.to_vec()), blk)
                    })
                    .collect();
                assert!(top.len() <= 4);
                ExtNode::Index(top)
            }
        };
        spec.iblock = self.b.extent_root(&node, ino, spec.generation);
    }
    /// Encode an indirect block map. Unlisted logical blocks are null pointers, at
    /// the highest possible level.
    pub fn map_blockmap(&mut self, spec: &mut InodeSpec, pairs: &[(u64, u64)]) {
        spec.flags &= !FL_EXTENTS;
        let per = self.bs() / 4;
        let mut ind: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
        for (l, phys) in pairs {
            let path = blockmap_path(*l, per);
            self.blockmap_set(spec, &mut ind, &path, *phys as u32);
        }
    }
    /// Set the pointer at `path`, creating indirect blocks as needed.
    pub fn blockmap_set(
        &mut self, spec: &mut InodeSpec, ind: &mut BTreeMap<Vec<u64>, u64>, path: &[u64], val: u32,
    ) {
        if path.len() == 1 {
            p32(&mut spec.iblock, 4 * path[0] as usize, val);
            return;
        }
        let parent = path[..path.len() - 1].to_vec();
        let blk = if let Some(b) = ind.get(&parent) {
            *b
        } else {
            let b = self.b.alloc();
            let n = self.b.bs();
            self.b.img.set_block(b, vec![0; n]);
            ind.insert(parent.clone(), b);
            self.blockmap_set(spec, ind, &parent, u32::try_from(b).unwrap());
            b
        };
        let mut w = [0u8; 4];
        p32(&mut w, 0, val);
        let pos = blk * self.bs() + 4 * path[path.len() - 1];
        self.b.img.poke_fast(pos, &w);
    }
    /// Write a linear directory made of explicit blocks.
    pub fn put_dir_blocks(&mut self, ino: u32, mut spec: InodeSpec, blocks: Vec<Vec<u8>>) -> Vec<u64> {
        let mut blks = vec![];
        for d in blocks {
            let blk = self.b.alloc();
            self.b.img.set_block(blk, d);
            blks.push(blk);
            if self.rng.chance(1, 3) {
                self.b.alloc(); // make the mapping non-contiguous
            }
        }
        spec.size = blks.len() as u64 * self.bs();
        self.map_blocks(ino, &mut spec, &blks);
        self.b.put_inode(ino, &spec);
        blks
    }
    /// Lay out a directory linearly, splitting into blocks when full.
    pub fn write_linear(&mut self, ino: u32) -> Vec<u64> {
        let d = self.dirs[&ino].clone();
        let mut ents = vec![
            Dirent { ino, name: b".".to_vec(), ftype: 2, pad: 0 },
            Dirent { ino: d.parent, name: b"..".to_vec(), ftype: 2, pad: 0 },
        ];
        ents.extend(d.ents.iter().cloned());
        let end = self.b.bs() - if self.b.cfg.csum() { 12 } else { 0 };
        let mut blocks: Vec<Vec<Dirent>> = vec![vec![]];
        let mut o = 0;
        for e in ents {
            let l = rec_min(e.name.len()) + e.pad;
            if o + l > end {
                blocks.push(vec![]);
                o = 0;
            }
            o += l;
            blocks.last_mut().unwrap().push(e);
        }
        let bl = blocks.iter().map(|e| self.b.dir_block(e, ino, d.meta.generation)).collect();
        self.put_dir_blocks(ino, d.meta, bl)
    }
    pub fn finish(mut self) -> (Rc<Img>, Cfg) {
        let dirs: Vec<u32> = self.dirs.keys().copied().collect();
        for d in dirs {
            if !self.b.inode_meta.contains_key(&d) {
                self.write_linear(d);
            }
        }
        let (img, cfg) = self.b.finish();
        (Rc::new(img), cfg)
    }
}
pub fn pairs_to_extents(pairs: &[(u64, u64)]) -> Vec<Ext> {
    let mut v: Vec<Ext> = vec![];
    for (l, p) in pairs {
        if let Some(e) = v.last_mut() {
            if u64::from(e.lblk) + u64::from(e.len) == *l && e.phys + u64::from(e.len) == *p && e.len < 32768 {
                e.len += 1;
                continue;
            }
        }
        v.push(Ext { lblk: *l as u32, len: 1, phys: *p, unwritten: false });
    }
    v
}
/// ext4_block_to_path.
pub fn blockmap_path(l: u64, per: u64) -> Vec<u64> {
    if l < 12 {
        return vec![l];
    }
    let l = l - 12;
    if l < per {
        return vec![12, l];
    }
    let l = l - per;
    if l < per * per {
        return vec![13, l / per, l % per];
    }
    let l = l - per * per;
    vec![14, l / (per * per), (l / per) % per, l % per]
}

/// With E4V_DUMP=dir, the images loaded are also written to files (see
/// tools/crosscheck.py), at most E4V_DUMP_MAX of them.
fn dump(img: &Rc<Img>) {
    use std::os::unix::fs::FileExt;
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let Ok(dir) = std::env::var("E4V_DUMP") else { return };
    let max = std::env::var("E4V_DUMP_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let total = img.nblocks * u64::from(img.bs);
    if total > 600 << 20 {
        return;
    }
    let n = N.fetch_add(1, Ordering::SeqCst);
    if n >= max {
        return;
    }
    let f = std::fs::File::create(format!("{dir}/{}-{n}.img", std::process::id())).expect("dump");
    let mut buf = vec![0u8; img.bs as usize];
    for b in 0..img.nblocks {
        img.block_bytes(b, 0, &mut buf);
        f.write_all_at(&buf, b * u64::from(img.bs)).expect("dump");
    }
}

pub fn load(img: &Rc<Img>) -> (Result<Ext4, Ext4Error>, CtlRef) {
    let img = crate::jenc::maybe_journalize(img);
    dump(&img);
    let (d, ctl) = SimDisk::new(img);
    (Ext4::load(Box::new(d)), ctl)
}

//! Independent ext4 image encoder.
//!
//! Written from the on-disk format documentation, not from the library: the
//! harness uses it to turn abstract layouts produced by the TLA+ specification
//! into images.  Images are sparse: blocks that were not written have
//! procedural contents that identify the physical block, so that reading the
//! wrong block is always visible.

use std::collections::{HashMap, HashSet};
use std::rc::Rc;

// ---------------------------------------------------------------- crc32c
static CRC_TABLE: std::sync::OnceLock<[[u32; 256]; 8]> = std::sync::OnceLock::new();
fn crc_table() -> &'static [[u32; 256]; 8] {
    CRC_TABLE.get_or_init(|| {
        let mut t = [[0u32; 256]; 8];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
            }
            t[0][i as usize] = c;
        }
        for i in 0..256 {
            let mut c = t[0][i];
            for k in 1..8 {
                c = t[0][(c & 0xff) as usize] ^ (c >> 8);
                t[k][i] = c;
            }
        }
        t
    })
}
/// Raw crc32c update (no inversion), as used by the kernel's `ext4_chksum`.
pub fn crc32c(mut crc: u32, data: &[u8]) -> u32 {
    let t = crc_table();
    for &b in data {
        crc = t[0][((crc ^ u32::from(b)) & 0xff) as usize] ^ (crc >> 8);
    }
    crc
}

// ---------------------------------------------------------------- dir hash
fn str2hashbuf(src: &[u8], words: usize, signed: bool) -> Vec<u32> {
    let len = src.len() as u32;
    let pad = len | (len << 8);
    let pad = pad | (pad << 16);
    let mut buf = Vec::new();
    let take = src.len().min(words * 4);
    let mut val = pad;
    for (i, &b) in src[..take].iter().enumerate() {
        let c: u32 = if signed { b as i8 as i32 as u32 } else { u32::from(b) };
        val = c.wrapping_add(val << 8);
        if i % 4 == 3 {
            buf.push(val);
            val = pad;
        }
    }
    if buf.len() < words {
        buf.push(val);
    }
    while buf.len() < words {
        buf.push(pad);
    }
    buf
}
fn half_md4(buf: &mut [u32; 4], inp: &[u32]) -> u32 {
    let (mut a, mut b, mut c, mut d) = (buf[0], buf[1], buf[2], buf[3]);
    let f = |x: u32, y: u32, z: u32| z ^ (x & (y ^ z));
    let g = |x: u32, y: u32, z: u32| (x & y).wrapping_add((x ^ y) & z);
    let h = |x: u32, y: u32, z: u32| x ^ y ^ z;
    macro_rules! r {
        ($f:ident, $a:ident,$b:ident,$c:ident,$d:ident,$x:expr,$s:expr) => {
            $a = $a.wrapping_add($f($b, $c, $d)).wrapping_add($x);
            $a = $a.rotate_left($s);
        };
    }
    const K2: u32 = 0o13240474631;
    const K3: u32 = 0o15666365641;
    r!(f, a, b, c, d, inp[0], 3);
    r!(f, d, a, b, c, inp[1], 7);
    r!(f, c, d, a, b, inp[2], 11);
    r!(f, b, c, d, a, inp[3], 19);
    r!(f, a, b, c, d, inp[4], 3);
    r!(f, d, a, b, c, inp[5], 7);
    r!(f, c, d, a, b, inp[6], 11);
    r!(f, b, c, d, a, inp[7], 19);
    r!(g, a, b, c, d, inp[1].wrapping_add(K2), 3);
    r!(g, d, a, b, c, inp[3].wrapping_add(K2), 5);
    r!(g, c, d, a, b, inp[5].wrapping_add(K2), 9);
    r!(g, b, c, d, a, inp[7].wrapping_add(K2), 13);
    r!(g, a, b, c, d, inp[0].wrapping_add(K2), 3);
    r!(g, d, a, b, c, inp[2].wrapping_add(K2), 5);
    r!(g, c, d, a, b, inp[4].wrapping_add(K2), 9);
    r!(g, b, c, d, a, inp[6].wrapping_add(K2), 13);
    r!(h, a, b, c, d, inp[3].wrapping_add(K3), 3);
    r!(h, d, a, b, c, inp[7].wrapping_add(K3), 9);
    r!(h, c, d, a, b, inp[2].wrapping_add(K3), 11);
    r!(h, b, c, d, a, inp[6].wrapping_add(K3), 15);
    r!(h, a, b, c, d, inp[1].wrapping_add(K3), 3);
    r!(h, d, a, b, c, inp[5].wrapping_add(K3), 9);
    r!(h, c, d, a, b, inp[0].wrapping_add(K3), 11);
    r!(h, b, c, d, a, inp[4].wrapping_add(K3), 15);
    buf[0] = buf[0].wrapping_add(a);
    buf[1] = buf[1].wrapping_add(b);
    buf[2] = buf[2].wrapping_add(c);
    buf[3] = buf[3].wrapping_add(d);
    buf[1]
}
fn tea_transform(buf: &mut [u32; 4], inp: &[u32]) {
    let mut sum = 0u32;
    let (mut b0, mut b1) = (buf[0], buf[1]);
    for _ in 0..16 {
        sum = sum.wrapping_add(0x9E37_79B9);
        b0 = b0.wrapping_add(
            ((b1 << 4).wrapping_add(inp[0])) ^ (b1.wrapping_add(sum)) ^ ((b1 >> 5).wrapping_add(inp[1])),
        );
        b1 = b1.wrapping_add(
            ((b0 << 4).wrapping_add(inp[2])) ^ (b0.wrapping_add(sum)) ^ ((b0 >> 5).wrapping_add(inp[3])),
        );
    }
    buf[0] = buf[0].wrapping_add(b0);
    buf[1] = buf[1].wrapping_add(b1);
}
/// Directory hash: version 1 = half MD4, 2 = TEA (signed), 4/5 unsigned.
pub fn dir_hash(version: u8, name: &[u8], seed: &[u32; 4]) -> u32 {
    let mut buf = [0x6745_2301u32, 0xefcd_ab89, 0x98ba_dcfe, 0x1032_5476];
    if seed.iter().any(|x| *x != 0) {
        buf = *seed;
    }
    let signed = version < 3;
    let hash;
    match version {
        1 | 4 => {
            let mut p = name;
            while !p.is_empty() {
                let inp = str2hashbuf(p, 8, signed);
                half_md4(&mut buf, &inp);
                p = if p.len() > 32 { &p[32..] } else { &[] };
            }
            hash = buf[1];
        }
        2 | 5 => {
            let mut p = name;
            while !p.is_empty() {
                let inp = str2hashbuf(p, 4, signed);
                tea_transform(&mut buf, &inp);
                p = if p.len() > 16 { &p[16..] } else { &[] };
            }
            hash = buf[0];
        }
        _ => panic!("hash version"),
    }
    let hash = hash & !1;
    // EXT4_HTREE_EOF_32BIT is reserved.
    if hash == 0xffff_fffe { 0xffff_fffc } else { hash }
}

// ---------------------------------------------------------------- helpers
pub fn p16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn p32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn p32be(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}
pub fn g16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
pub fn g32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// Small deterministic RNG.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

// ---------------------------------------------------------------- features
pub const INCOMPAT_FILETYPE: u32 = 0x2;
pub const INCOMPAT_RECOVER: u32 = 0x4;
pub const INCOMPAT_EXTENTS: u32 = 0x40;
pub const INCOMPAT_64BIT: u32 = 0x80;
pub const INCOMPAT_FLEX_BG: u32 = 0x200;
pub const INCOMPAT_CSUM_SEED: u32 = 0x2000;
pub const RO_SPARSE: u32 = 0x1;
pub const RO_LARGE_FILE: u32 = 0x2;
pub const RO_HUGE_FILE: u32 = 0x8;
pub const RO_GDT_CSUM: u32 = 0x10;
pub const RO_DIR_NLINK: u32 = 0x20;
pub const RO_EXTRA_ISIZE: u32 = 0x40;
pub const RO_BIGALLOC: u32 = 0x200;
pub const RO_METADATA_CSUM: u32 = 0x400;
pub const COMPAT_JOURNAL: u32 = 0x4;
pub const COMPAT_EXT_ATTR: u32 = 0x8;
pub const COMPAT_DIR_INDEX: u32 = 0x20;

pub const S_IFIFO: u16 = 0x1000;
pub const S_IFCHR: u16 = 0x2000;
pub const S_IFDIR: u16 = 0x4000;
pub const S_IFBLK: u16 = 0x6000;
pub const S_IFREG: u16 = 0x8000;
pub const S_IFLNK: u16 = 0xA000;
pub const S_IFSOCK: u16 = 0xC000;

pub const FL_ENCRYPT: u32 = 0x800;
pub const FL_INDEX: u32 = 0x1000;
pub const FL_EXTENTS: u32 = 0x80000;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub bs: u32,
    pub inode_size: u16,
    pub ipg: u32,
    pub bpg: u32,
    pub groups: u32,
    pub desc_size: u16,
    /// Total number of blocks in the filesystem.
    pub blocks: u64,
    pub incompat: u32,
    pub ro_compat: u32,
    pub compat: u32,
    pub csum_seed: u32,
    pub uuid: [u8; 16],
    pub label: [u8; 16],
    pub hash_seed: [u32; 4],
    pub def_hash_version: u8,
    pub s_flags: u32,
    /// Inode table start of each group.
    pub itable: Vec<u64>,
    pub journal_ino: u32,
    pub first_data_block: u32,
    pub fill_seed: u64,
}
impl Cfg {
    pub fn csum(&self) -> bool {
        self.ro_compat & RO_METADATA_CSUM != 0
    }
    pub fn is64(&self) -> bool {
        self.incompat & INCOMPAT_64BIT != 0
    }
    pub fn seed(&self) -> u32 {
        if self.incompat & INCOMPAT_CSUM_SEED != 0 {
            self.csum_seed
        } else {
            crc32c(!0, &self.uuid)
        }
    }
    /// First block after superblock and group descriptors.
    pub fn after_gdt(&self) -> u64 {
        let start: u64 = if self.bs == 1024 { 2 } else { 1 };
        let per = self.bs / u32::from(self.desc_size);
        start + u64::from(self.groups.div_ceil(per))
    }
}

pub type Block = Rc<Vec<u8>>;

/// A sparse image.
#[derive(Clone)]
pub struct Img {
    pub bs: u32,
    pub nblocks: u64,
    pub fill_seed: u64,
    pub blocks: HashMap<u64, Block>,
    /// Free blocks, for a journal to be added later (see `jenc::journalize`).
    pub spare: Vec<u64>,
}
pub fn fill_bytes(seed: u64, bs: u32, block: u64, off: usize, dst: &mut [u8]) {
    let mut i = 0;
    let base = seed ^ block.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    while i < dst.len() {
        let o = off + i;
        let w = mix(base.wrapping_add((o / 8) as u64)).to_le_bytes();
        let k = o % 8;
        let n = (8 - k).min(dst.len() - i);
        dst[i..i + n].copy_from_slice(&w[k..k + n]);
        i += n;
    }
    let _ = bs;
}
impl Img {
    pub fn read(&self, start: u64, dst: &mut [u8]) -> bool {
        let total = u128::from(self.nblocks) * u128::from(self.bs);
        if u128::from(start) + dst.len() as u128 > total {
            return false;
        }
        let mut done = 0usize;
        while done < dst.len() {
            let pos = start + done as u64;
            let blk = pos / u64::from(self.bs);
            let off = (pos % u64::from(self.bs)) as usize;
            let n = (self.bs as usize - off).min(dst.len() - done);
            self.block_bytes(blk, off, &mut dst[done..done + n]);
            done += n;
        }
        true
    }
    /// Contents of part of one block.
    pub fn block_bytes(&self, blk: u64, off: usize, dst: &mut [u8]) {
        if let Some(b) = self.blocks.get(&blk) {
            dst.copy_from_slice(&b[off..off + dst.len()]);
        } else {
            fill_bytes(self.fill_seed, self.bs, blk, off, dst);
        }
    }
    pub fn get_block(&self, blk: u64) -> Vec<u8> {
        let mut v = vec![0; self.bs as usize];
        self.block_bytes(blk, 0, &mut v);
        v
    }
    pub fn set_block(&mut self, blk: u64, v: Vec<u8>) {
        assert_eq!(v.len(), self.bs as usize);
        self.blocks.insert(blk, Rc::new(v));
    }
    /// Overwrite bytes at an absolute position.
    pub fn poke(&mut self, pos: u64, data: &[u8]) {
        for (i, b) in data.iter().enumerate() {
            let p = pos + i as u64;
            let blk = p / u64::from(self.bs);
            let mut v = self.get_block(blk);
            v[(p % u64::from(self.bs)) as usize] = *b;
            self.set_block(blk, v);
        }
    }
    pub fn peek(&self, pos: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        assert!(self.read(pos, &mut v));
        v
    }
    /// Write the image to a (sparse) file, for use with e2fsprogs.
    pub fn dump(&self, path: &str) {
        use std::io::{Seek, SeekFrom, Write};
        let mut f = std::fs::File::create(path).unwrap();
        f.set_len(self.nblocks * u64::from(self.bs)).unwrap();
        for (b, d) in &self.blocks {
            f.seek(SeekFrom::Start(b * u64::from(self.bs))).unwrap();
            f.write_all(d).unwrap();
        }
    }
}

// ---------------------------------------------------------------- inodes
#[derive(Clone, Debug)]
pub struct InodeSpec {
    pub mode: u16,
    pub uid: u32,
    pub gid: u32,
    pub size: u64,
    pub flags: u32,
    pub generation: u32,
    pub iblock: [u8; 60],
}
impl InodeSpec {
    pub fn new(mode: u16) -> Self {
        Self { mode, uid: 0, gid: 0, size: 0, flags: 0, generation: 0, iblock: [0; 60] }
    }
}

// ---------------------------------------------------------------- extents
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ext {
    pub lblk: u32,
    pub len: u16,
    pub phys: u64,
    pub unwritten: bool,
}
#[derive(Clone, Debug)]
pub enum ExtNode {
    Leaf(Vec<Ext>),
    /// first logical block of child, child, physical block of the child node
    Index(Vec<(u32, ExtNode, u64)>),
}
impl ExtNode {
    pub fn depth(&self) -> u16 {
        match self {
            ExtNode::Leaf(_) => 0,
            ExtNode::Index(v) => 1 + v.first().map(|c| c.1.depth()).unwrap_or(0),
        }
    }
    pub fn first(&self) -> u32 {
        match self {
            ExtNode::Leaf(v) => v.first().map(|e| e.lblk).unwrap_or(0),
            ExtNode::Index(v) => v.first().map(|e| e.0).unwrap_or(0),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Dirent {
    pub ino: u32,
    pub name: Vec<u8>,
    pub ftype: u8,
    /// Extra padding (bytes) added to the minimal record length.
    pub pad: usize,
}
pub fn ftype_of_mode(mode: u16) -> u8 {
    match mode & 0xf000 {
        S_IFREG => 1,
        S_IFDIR => 2,
        S_IFCHR => 3,
        S_IFBLK => 4,
        S_IFIFO => 5,
        S_IFSOCK => 6,
        S_IFLNK => 7,
        _ => 0,
    }
}
pub fn rec_min(name_len: usize) -> usize {
    (8 + name_len).div_ceil(4) * 4
}
/// A record that fills a 64 KiB block has either of two lengths.
pub fn enc_rec_len(len: usize, bs: u32, alt: u64) -> u16 {
    if len == 65536 && bs == 65536 && alt & 2 == 0 { 65535 } else if len >= 65536 { 0 } else { len as u16 }
}

// ---------------------------------------------------------------- builder
pub struct Builder {
    pub cfg: Cfg,
    pub img: Img,
    pub next_block: u64,
    /// Blocks handed out explicitly (never returned by alloc).
    pub reserved: HashSet<u64>,
    pub inode_meta: HashMap<u32, InodeSpec>,
    /// Allocations may give the last block of the filesystem.
    pub use_last: bool,
}
impl Builder {
    pub fn new(cfg: Cfg) -> Self {
        let img = Img { bs: cfg.bs, nblocks: cfg.blocks, fill_seed: cfg.fill_seed, blocks: HashMap::new(), spare: vec![] };
        // Allocate after the GDT and after inode tables that lie near it.
        let mut next = cfg.after_gdt();
        let itb = u64::from(cfg.ipg) * u64::from(cfg.inode_size);
        let itb = itb.div_ceil(u64::from(cfg.bs));
        let mut again = true;
        while again {
            again = false;
            for t in &cfg.itable {
                if next >= *t && next < *t + itb {
                    next = *t + itb;
                    again = true;
                }
            }
        }
        let mut b = Self { cfg, img, next_block: next, reserved: HashSet::new(), inode_meta: HashMap::new(), use_last: true };
        // Inode tables start zeroed.
        let zero = Rc::new(vec![0u8; b.cfg.bs as usize]);
        if itb <= 4096 {
            for t in b.cfg.itable.clone().into_iter().take(64) {
                for i in 0..itb {
                    b.img.blocks.insert(t + i, zero.clone());
                    b.reserved.insert(t + i);
                }
            }
        }
        b
    }
    /// A copy that shares the image contents (for computing block contents).
    pub fn new_shadow(b: &Builder) -> Self {
        Self {
            cfg: b.cfg.clone(),
            img: b.img.clone(),
            next_block: b.next_block,
            reserved: HashSet::new(),
            use_last: false,
            inode_meta: b.inode_meta.clone(),
        }
    }
    pub fn bs(&self) -> usize {
        self.cfg.bs as usize
    }
    /// The start of a free region beyond 2^32 (in a filesystem that large): at
    /// a random power of two, sometimes with the same low bits as blocks that
    /// `alloc` returns.
    pub fn high(&self) -> u64 {
        if self.cfg.blocks <= 1 << 32 {
            return 0;
        }
        let max = self.cfg.blocks - (1 << 22);
        let r = self.cfg.fill_seed >> 20;
        let bits = u64::from(64 - max.leading_zeros());
        let base = match r % 4 {
            0 => 1 << 32,
            1 => 1 << (bits - 1),
            2 => (r << 32) % max,
            _ => 1 << (32 + (r >> 3) % (bits - 32).max(1)),
        };
        let base = base.clamp(1 << 32, max);
        base + if (r >> 16) % 2 == 0 { 1000 } else { self.next_block }
    }
    pub fn is_table(&self, blk: u64) -> bool {
        let itb = (u64::from(self.cfg.ipg) * u64::from(self.cfg.inode_size)).div_ceil(u64::from(self.cfg.bs));
        self.cfg.itable.iter().any(|t| blk >= *t && blk < *t + itb)
    }
    pub fn alloc(&mut self) -> u64 {
        // Now and then the last block of the filesystem.
        let last = self.cfg.blocks - 1;
        if self.use_last && self.cfg.fill_seed.rotate_right((self.next_block & 63) as u32) & 7 == 0 && last > self.next_block && last < 1 << 32 && !self.is_table(last) && self.reserved.insert(last) {
            return last;
        }
        while self.reserved.contains(&self.next_block) || self.is_table(self.next_block) {
            self.next_block += 1;
        }
        let b = self.next_block;
        self.next_block += 1;
        self.reserved.insert(b);
        assert!(b < self.cfg.blocks, "image too small");
        b
    }
    /// Allocate `n` contiguous blocks.
    pub fn alloc_run(&mut self, n: u64) -> u64 {
        'o: loop {
            let s = self.next_block;
            for i in 0..n {
                if self.reserved.contains(&(s + i)) || self.is_table(s + i) {
                    self.next_block = s + i + 1;
                    continue 'o;
                }
            }
            for i in 0..n {
                self.reserved.insert(s + i);
            }
            self.next_block = s + n;
            assert!(s + n <= self.cfg.blocks, "image too small");
            return s;
        }
    }
    pub fn inode_pos(&self, ino: u32) -> u64 {
        let g = (ino - 1) / self.cfg.ipg;
        let i = (ino - 1) % self.cfg.ipg;
        self.cfg.itable[g as usize % self.cfg.itable.len()] * u64::from(self.cfg.bs)
            + u64::from(i) * u64::from(self.cfg.inode_size)
    }
    pub fn inode_seed(&self, ino: u32, generation: u32) -> u32 {
        let s = crc32c(self.cfg.seed(), &ino.to_le_bytes());
        crc32c(s, &generation.to_le_bytes())
    }
    pub fn inode_bytes(&self, ino: u32, s: &InodeSpec) -> Vec<u8> {
        let mut d = vec![0u8; usize::from(self.cfg.inode_size)];
        p16(&mut d, 0, s.mode);
        p16(&mut d, 2, s.uid as u16);
        p32(&mut d, 4, s.size as u32);
        // times: arbitrary nonzero values
        for (o, v) in [(8, 0x5f00_0001u32), (0xc, 0x5f00_0002), (0x10, 0x5f00_0003)] {
            p32(&mut d, o, v);
        }
        p16(&mut d, 0x18, s.gid as u16);
        p16(&mut d, 0x1a, 1);
        p32(&mut d, 0x1c, 8);
        p32(&mut d, 0x20, s.flags);
        d[0x28..0x28 + 60].copy_from_slice(&s.iblock);
        p32(&mut d, 0x64, s.generation);
        p32(&mut d, 0x6c, (s.size >> 32) as u32);
        p16(&mut d, 0x78, (s.uid >> 16) as u16);
        p16(&mut d, 0x7a, (s.gid >> 16) as u16);
        if d.len() > 128 {
            // i_extra_isize decides whether the high half of the checksum exists.
            let n = d.len();
            let extra = match ino % 5 {
                0 => 0,
                1 => 4,
                2 => 28,
                3 => (n - 128).min(160) as u16,
                _ => 32,
            };
            p16(&mut d, 0x80, extra);
            // In-inode extended attributes follow.
            if ino % 3 != 0 {
                for (i, x) in d.iter_mut().enumerate().skip(128 + usize::from(extra).max(4)) {
                    *x = (i as u8).wrapping_mul(ino as u8 | 1);
                }
            }
        }
        if self.cfg.csum() {
            fix_inode_csum(&mut d, self.cfg.seed(), ino);
        }
        d
    }
    pub fn put_inode(&mut self, ino: u32, s: &InodeSpec) {
        let d = self.inode_bytes(ino, s);
        let pos = self.inode_pos(ino);
        self.img.poke_fast(pos, &d);
        self.inode_meta.insert(ino, s.clone());
    }
    // ---- extents
    fn enc_node(&mut self, node: &ExtNode, max: u16, seed: u32) -> Vec<u8> {
        let mut d = vec![0u8; 12 * (usize::from(max) + 1)];
        p16(&mut d, 0, 0xf30a);
        p16(&mut d, 4, max);
        p16(&mut d, 6, node.depth());
        match node {
            ExtNode::Leaf(v) => {
                assert!(v.len() <= usize::from(max));
                p16(&mut d, 2, v.len() as u16);
                for (i, e) in v.iter().enumerate() {
                    let o = 12 * (i + 1);
                    p32(&mut d, o, e.lblk);
                    p16(&mut d, o + 4, if e.unwritten { e.len + 0x8000 } else { e.len });
                    p16(&mut d, o + 6, (e.phys >> 32) as u16);
                    p32(&mut d, o + 8, e.phys as u32);
                }
            }
            ExtNode::Index(v) => {
                assert!(v.len() <= usize::from(max));
                p16(&mut d, 2, v.len() as u16);
                for (i, (first, child, blk)) in v.iter().enumerate() {
                    self.put_extent_block(*blk, child, seed);
                    let o = 12 * (i + 1);
                    p32(&mut d, o, *first);
                    p32(&mut d, o + 4, *blk as u32);
                    p16(&mut d, o + 8, (*blk >> 32) as u16);
                    // ei_unused: arbitrary
                    p16(&mut d, o + 10, 0xabcd);
                }
            }
        }
        d
    }
    pub fn put_extent_block(&mut self, blk: u64, node: &ExtNode, seed: u32) {
        let bs = self.bs();
        let max = ((bs - 12) / 12) as u16;
        let mut d = self.enc_node(node, max, seed);
        let tail = d.len();
        // junk after the node area
        d.resize(bs, 0xA5);
        if self.cfg.csum() {
            let c = crc32c(seed, &d[..tail]);
            p32(&mut d, tail, c);
        }
        self.img.set_block(blk, d);
    }
    /// Encode an extent root into the 60 bytes of i_block.
    pub fn extent_root(&mut self, node: &ExtNode, ino: u32, generation: u32) -> [u8; 60] {
        let seed = self.inode_seed(ino, generation);
        let d = self.enc_node(node, 4, seed);
        d.try_into().unwrap()
    }
    // ---- directories
    /// Encode one leaf/linear directory block. The last record is extended to
    /// the end of the block (or to the checksum tail).
    pub fn dir_block(&self, ents: &[Dirent], ino: u32, generation: u32) -> Vec<u8> {
        let bs = self.bs();
        let mut d = vec![0u8; bs];
        let end = if self.cfg.csum() { bs - 12 } else { bs };
        let mut o = 0;
        if ents.is_empty() {
            p16(&mut d, 4, enc_rec_len(end, self.cfg.bs, self.cfg.fill_seed));
        }
        for (i, e) in ents.iter().enumerate() {
            let mut len = rec_min(e.name.len()) + e.pad;
            if i + 1 == ents.len() {
                len = end - o;
            }
            assert!(o + len <= end && len >= rec_min(e.name.len()), "directory block overflow");
            p32(&mut d, o, e.ino);
            p16(&mut d, o + 4, enc_rec_len(len, self.cfg.bs, self.cfg.fill_seed));
            d[o + 6] = e.name.len() as u8;
            d[o + 7] = e.ftype;
            d[o + 8..o + 8 + e.name.len()].copy_from_slice(&e.name);
            o += len;
        }
        if self.cfg.csum() {
            self.fix_dir_leaf(&mut d, ino, generation);
        }
        d
    }
    pub fn fix_dir_leaf(&self, d: &mut [u8], ino: u32, generation: u32) {
        let bs = self.bs();
        let seed = self.inode_seed(ino, generation);
        let t = bs - 12;
        d[t..].fill(0);
        p16(d, t + 4, 12);
        d[t + 7] = 0xde;
        let c = crc32c(seed, &d[..t]);
        p32(d, t + 8, c);
    }
    /// Checksum of an htree index block (root or internal).
    pub fn fix_dx_block(&self, d: &mut [u8], count_off: usize, ino: u32, generation: u32) {
        let limit = usize::from(g16(d, count_off));
        let count = usize::from(g16(d, count_off + 2));
        let tail = count_off + limit * 8;
        let seed = self.inode_seed(ino, generation);
        // dt_reserved must be zero; keep it so.
        p32(d, tail, 0);
        let c = crc32c(seed, &d[..count_off + count * 8]);
        let c = crc32c(c, &[0; 4]);
        let c = crc32c(c, &[0; 4]);
        p32(d, tail + 4, c);
    }
    /// Limit (number of index slots including the header) of a root/internal block.
    pub fn dx_limit(&self, root: bool) -> usize {
        let off = if root { 0x20 } else { 8 };
        (self.bs() - off) / 8 - if self.cfg.csum() { 1 } else { 0 }
    }
    pub fn dx_root(
        &self,
        ino: u32,
        generation: u32,
        parent: u32,
        hash_version: u8,
        levels: u8,
        entries: &[(u32, u32)],
    ) -> Vec<u8> {
        let bs = self.bs();
        let mut d = vec![0u8; bs];
        p32(&mut d, 0, ino);
        p16(&mut d, 4, 12);
        d[6] = 1;
        d[7] = 2;
        d[8] = b'.';
        p32(&mut d, 12, parent);
        p16(&mut d, 16, enc_rec_len(bs - 12, self.cfg.bs, self.cfg.fill_seed));
        d[18] = 2;
        d[19] = 2;
        d[20] = b'.';
        d[21] = b'.';
        d[0x1c] = hash_version;
        d[0x1d] = 8;
        d[0x1e] = levels;
        self.dx_entries(&mut d, 0x20, true, entries);
        if self.cfg.csum() {
            self.fix_dx_block(&mut d, 0x20, ino, generation);
        }
        d
    }
    pub fn dx_node(&self, ino: u32, generation: u32, entries: &[(u32, u32)]) -> Vec<u8> {
        let bs = self.bs();
        let mut d = vec![0u8; bs];
        p16(&mut d, 4, enc_rec_len(bs, self.cfg.bs, self.cfg.fill_seed));
        self.dx_entries(&mut d, 8, false, entries);
        if self.cfg.csum() {
            self.fix_dx_block(&mut d, 8, ino, generation);
        }
        d
    }
    fn dx_entries(&self, d: &mut [u8], off: usize, root: bool, entries: &[(u32, u32)]) {
        let limit = self.dx_limit(root);
        assert!(entries.len() <= limit);
        // stale data beyond `count`
        for i in entries.len()..limit {
            p32(d, off + 8 * i, 0x7777_0000 | i as u32);
            p32(d, off + 8 * i + 4, 0x0066_0000 | i as u32);
        }
        for (i, (h, b)) in entries.iter().enumerate() {
            p32(d, off + 8 * i, *h);
            p32(d, off + 8 * i + 4, *b);
        }
        p16(d, off, limit as u16);
        p16(d, off + 2, entries.len() as u16);
    }
    // ---- finishing
    pub fn superblock(&self) -> Vec<u8> {
        let c = &self.cfg;
        let mut d = vec![0u8; 1024];
        let inodes = u64::from(c.ipg) * u64::from(c.groups);
        p32(&mut d, 0x0, inodes as u32);
        p32(&mut d, 0x4, c.blocks as u32);
        p32(&mut d, 0x14, c.first_data_block);
        p32(&mut d, 0x18, c.bs.trailing_zeros() - 10);
        // With bigalloc, groups are larger than one bitmap of blocks.
        let ratio = (c.bpg / (c.bs * 8)).max(1);
        p32(&mut d, 0x1c, c.bs.trailing_zeros() - 10 + if c.ro_compat & RO_BIGALLOC != 0 { ratio.trailing_zeros() } else { 0 });
        p32(&mut d, 0x20, c.bpg);
        p32(&mut d, 0x24, if c.ro_compat & RO_BIGALLOC != 0 { c.bpg / ratio } else { c.bpg });
        p32(&mut d, 0x28, c.ipg);
        p16(&mut d, 0x38, 0xef53);
        p16(&mut d, 0x3a, 1);
        p16(&mut d, 0x3c, 1);
        p32(&mut d, 0x4c, 1);
        p32(&mut d, 0x54, 11);
        p16(&mut d, 0x58, c.inode_size);
        p32(&mut d, 0x5c, c.compat);
        p32(&mut d, 0x60, c.incompat);
        p32(&mut d, 0x64, c.ro_compat);
        d[0x68..0x78].copy_from_slice(&c.uuid);
        d[0x78..0x88].copy_from_slice(&c.label);
        p32(&mut d, 0xe0, c.journal_ino);
        for i in 0..4 {
            p32(&mut d, 0xec + 4 * i, c.hash_seed[i]);
        }
        d[0xfc] = c.def_hash_version;
        p16(&mut d, 0xfe, if c.is64() { c.desc_size } else { 0 });
        p32(&mut d, 0x150, (c.blocks >> 32) as u32);
        p16(&mut d, 0x15c, 32);
        p16(&mut d, 0x15e, 32);
        // (with and without the flag of test filesystems)
        p32(&mut d, 0x160, c.s_flags | (c.fill_seed as u32 & 4));
        if c.csum() {
            d[0x175] = 1;
        }
        p32(&mut d, 0x270, c.csum_seed);
        if c.csum() {
            let x = crc32c(!0, &d[..0x3fc]);
            p32(&mut d, 0x3fc, x);
        }
        d
    }
    pub fn bgd(&self, g: u32) -> Vec<u8> {
        let c = &self.cfg;
        let mut d = vec![0u8; usize::from(c.desc_size)];
        let t = c.itable[g as usize % c.itable.len()];
        p32(&mut d, 0, 0x0101);
        p32(&mut d, 4, 0x0202);
        p32(&mut d, 8, t as u32);
        p16(&mut d, 0xc, 7);
        p16(&mut d, 0x12, 4);
        if c.desc_size >= 64 {
            if c.is64() {
                p32(&mut d, 0x28, (t >> 32) as u32);
            }
            p32(&mut d, 0x3c, 0x1234_5678);
        }
        for i in 64..usize::from(c.desc_size) {
            d[i] = i as u8;
        }
        if c.csum() {
            fix_bgd_csum(&mut d, c.seed(), g);
        }
        d
    }
    pub fn finish(mut self) -> (Img, Cfg) {
        let want = (1 << 19) / u64::from(self.cfg.bs);
        let mut next = self.next_block;
        while (self.img.spare.len() as u64) < want.clamp(8, 48) && next < self.cfg.blocks {
            if !self.reserved.contains(&next) && !self.is_table(next) && !self.img.blocks.contains_key(&next) {
                self.img.spare.push(next);
            }
            next += 1;
        }
        let sb = self.superblock();
        self.img.poke_fast(1024, &sb);
        let start = if self.cfg.bs == 1024 { 2u64 } else { 1 };
        let per = self.cfg.bs / u32::from(self.cfg.desc_size);
        let mut g = 0;
        let mut blk = start;
        while g < self.cfg.groups {
            let mut d = vec![0u8; self.bs()];
            for i in 0..per {
                if g + i < self.cfg.groups {
                    let x = self.bgd(g + i);
                    let o = i as usize * usize::from(self.cfg.desc_size);
                    d[o..o + x.len()].copy_from_slice(&x);
                }
            }
            self.img.set_block(blk, d);
            blk += 1;
            g += per;
        }
        (self.img, self.cfg)
    }
}
pub fn fix_inode_csum(d: &mut [u8], seed: u32, ino: u32) {
    let generation = g32(d, 0x64);
    p16(d, 0x7c, 0);
    let extra = if d.len() > 128 { usize::from(g16(d, 0x80)) } else { 0 };
    let has_hi = d.len() > 128 && extra >= 4;
    if has_hi {
        p16(d, 0x82, 0);
    }
    let s = crc32c(seed, &ino.to_le_bytes());
    let s = crc32c(s, &generation.to_le_bytes());
    let c = crc32c(s, d);
    p16(d, 0x7c, c as u16);
    if has_hi {
        p16(d, 0x82, (c >> 16) as u16);
    }
}
pub fn fix_bgd_csum(d: &mut [u8], seed: u32, g: u32) {
    p16(d, 0x1e, 0);
    let c = crc32c(seed, &g.to_le_bytes());
    let c = crc32c(c, d);
    p16(d, 0x1e, c as u16);
}
pub fn fix_sb_csum(d: &mut [u8]) {
    let x = crc32c(!0, &d[..0x3fc]);
    p32(d, 0x3fc, x);
}
impl Img {
    pub fn poke_fast(&mut self, pos: u64, data: &[u8]) {
        let bs = u64::from(self.bs);
        let mut done = 0;
        while done < data.len() {
            let p = pos + done as u64;
            let blk = p / bs;
            let off = (p % bs) as usize;
            let n = (bs as usize - off).min(data.len() - done);
            if !self.blocks.contains_key(&blk) {
                let v = self.get_block(blk);
                self.set_block(blk, v);
            }
            let v = Rc::make_mut(self.blocks.get_mut(&blk).unwrap());
            v[off..off + n].copy_from_slice(&data[done..done + n]);
            done += n;
        }
    }
}

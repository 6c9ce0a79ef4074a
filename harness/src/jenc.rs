//! Encoder for the jbd2 on-disk log format (64-bit, checksum v3).
use crate::enc::*;
use crate::world::World;
use std::rc::Rc;

pub const JMAGIC: u32 = 0xc03b_3998;
pub const J_REVOKE: u32 = 1;
pub const J_64BIT: u32 = 2;
pub const J_CSUM_V3: u32 = 0x10;
pub const TAG_ESCAPED: u32 = 1;
pub const TAG_SAME_UUID: u32 = 2;
pub const TAG_DELETED: u32 = 4;
pub const TAG_LAST: u32 = 8;

pub struct Jrn {
    pub bs: usize,
    pub uuid: [u8; 16],
}
fn p64be(d: &mut [u8], o: usize, v: u64) {
    d[o..o + 8].copy_from_slice(&v.to_be_bytes());
}
impl Jrn {
    pub fn seed(&self) -> u32 {
        crc32c(!0, &self.uuid)
    }
    fn header(&self, ty: u32, seq: u32, junk: &mut Rng) -> Vec<u8> {
        let mut d = vec![0u8; self.bs];
        if junk.chance(1, 2) {
            for b in &mut d {
                *b = junk.next() as u8;
            }
        }
        p32be(&mut d, 0, JMAGIC);
        p32be(&mut d, 4, ty);
        p32be(&mut d, 8, seq);
        d
    }
    pub fn tail_csum(&self, d: &mut [u8]) {
        let n = d.len();
        p32be(d, n - 4, 0);
        let c = crc32c(self.seed(), d);
        p32be(d, n - 4, c);
    }
    pub fn data_csum(&self, seq: u32, data: &[u8]) -> u32 {
        let c = crc32c(self.seed(), &seq.to_be_bytes());
        crc32c(c, data)
    }
    /// Maximum number of tags (first tag carries the UUID).
    pub fn max_tags(&self, uuid_first: bool) -> usize {
        (self.bs - 12 - 4 - if uuid_first { 16 } else { 0 }) / 16
    }
    /// tags: (filesystem block, data)
    pub fn desc(&self, seq: u32, tags: &[(u64, &[u8])], uuid: u8, rng: &mut Rng) -> Vec<u8> {
        let mut d = self.header(1, seq, rng);
        let mut o = 12;
        for (i, (blk, data)) in tags.iter().enumerate() {
            // uuid: 0 = first tag only (as jbd2 does), 1 = none, 2 = every tag
            let with = match uuid {
                0 => i == 0,
                1 => false,
                _ => true,
            };
            let mut flags = 0;
            if !with {
                flags |= TAG_SAME_UUID;
            }
            if i + 1 == tags.len() {
                flags |= TAG_LAST;
            } else if rng.chance(1, 16) {
                flags |= TAG_DELETED; // no reader looks at it
            }
            assert!(o + 16 + if with { 16 } else { 0 } <= self.bs - 4, "descriptor overflow");
            p32be(&mut d, o, *blk as u32);
            p32be(&mut d, o + 4, flags);
            p32be(&mut d, o + 8, (*blk >> 32) as u32);
            p32be(&mut d, o + 12, self.data_csum(seq, data));
            o += 16;
            if with {
                d[o..o + 16].copy_from_slice(&self.uuid);
                o += 16;
            }
        }
        self.tail_csum(&mut d);
        d
    }
    pub fn max_revokes(&self) -> usize {
        (self.bs - 16 - 4) / 8
    }
    pub fn revoke(&self, seq: u32, blocks: &[u64], rng: &mut Rng) -> Vec<u8> {
        let mut d = self.header(5, seq, rng);
        p32be(&mut d, 12, 16 + 8 * blocks.len() as u32);
        for (i, b) in blocks.iter().enumerate() {
            p64be(&mut d, 16 + 8 * i, *b);
        }
        self.tail_csum(&mut d);
        d
    }
    pub fn commit(&self, seq: u32, rng: &mut Rng) -> Vec<u8> {
        let mut z = Rng(0);
        while z.clone().chance(1, 2) {
            z.next();
        }
        let mut d = self.header(2, seq, &mut z);
        p64be(&mut d, 48, 0x6500_0000 + rng.below(1000));
        p32be(&mut d, 56, rng.below(1_000_000_000) as u32);
        let c = crc32c(self.seed(), &d);
        p32be(&mut d, 16, c);
        d
    }
    pub fn commit_csum(&self, d: &mut [u8]) {
        p32be(d, 16, 0);
        let c = crc32c(self.seed(), d);
        p32be(d, 16, c);
    }
    pub fn superblock(&self, maxlen: u32, start: u32, seq: u32, incompat: u32) -> Vec<u8> {
        let mut d = vec![0u8; self.bs];
        p32be(&mut d, 0, JMAGIC);
        p32be(&mut d, 4, 4);
        p32be(&mut d, 0xc, self.bs as u32);
        p32be(&mut d, 0x10, maxlen);
        p32be(&mut d, 0x14, 1);
        p32be(&mut d, 0x18, seq);
        p32be(&mut d, 0x1c, start);
        p32be(&mut d, 0x28, incompat);
        d[0x30..0x40].copy_from_slice(&self.uuid);
        p32be(&mut d, 0x40, 1);
        d[0x50] = 4;
        self.fix_superblock(&mut d);
        d
    }
    pub fn fix_superblock(&self, d: &mut [u8]) {
        p32be(d, 0xfc, 0);
        let c = crc32c(!0, &d[..1024]);
        p32be(d, 0xfc, c);
    }
}

/// Put the journal file (inode 8) on disk; returns its physical blocks.
pub fn put_journal(w: &mut World, nblocks: u64, rng: &mut Rng) -> Vec<u64> {
    let huge = w.b.cfg.blocks > (1 << 32);
    let mut blks = vec![];
    let style = rng.below(4);
    if style == 0 {
        let s = w.b.alloc_run(nblocks);
        blks = (s..s + nblocks).collect();
    } else {
        while (blks.len() as u64) < nblocks {
            let n = (1 + rng.below(if style == 1 { 2 } else { 6 })).min(nblocks - blks.len() as u64);
            let s = if huge && rng.chance(1, 2) {
                w.b.high() + 2_000_000 + 4096 * blks.len() as u64
            } else {
                w.b.alloc_run(n)
            };
            blks.extend(s..s + n);
            w.b.alloc();
        }
        if style == 2 && !huge {
            // scattered in reverse
            blks.reverse();
        }
    }
    let mut spec = InodeSpec::new(S_IFREG | 0o600);
    spec.generation = rng.next() as u32;
    spec.size = nblocks * w.bs();
    w.extents = huge || rng.chance(2, 3);
    w.map_blocks(8, &mut spec, &blks);
    w.b.put_inode(8, &spec);
    blks
}

pub fn seq_base(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => 1,
        1 => u32::MAX - rng.below(6) as u32,
        2 => 0x7fff_fffe,
        _ => rng.next() as u32,
    }
}

/// The same filesystem, with some of its blocks only in a journal that has
/// still to be replayed: their home locations hold junk or stale contents.
/// Returns None if the image has no room for it (or is damaged).
pub fn journalize(img: &Img, mut rng: Rng) -> Option<Img> {
    let bs = u64::from(img.bs);
    let mut sb = img.peek(1024, 1024);
    let (compat, incompat, ro) = (g32(&sb, 0x5c), g32(&sb, 0x60), g32(&sb, 0x64));
    let csum = ro & RO_METADATA_CSUM != 0;
    if compat & 4 != 0 || incompat & 4 != 0 || (csum && g32(&sb, 0x3fc) != crc32c(!0, &sb[..0x3fc])) {
        return None;
    }
    let mut exts: Vec<Ext> = vec![];
    for (i, b) in img.spare.iter().enumerate() {
        match exts.last_mut() {
            Some(e) if e.phys + u64::from(e.len) == *b => e.len += 1,
            _ => exts.push(Ext { lblk: i as u32, phys: *b, len: 1, unwritten: false }),
        }
    }
    let n = img.spare.len();
    if exts.len() > 4 || n < 8 {
        return None;
    }
    let is64 = incompat & 0x80 != 0;
    let dsz = if is64 { g16(&sb, 0xfe) } else { 32 };
    let gdt = if bs == 1024 { 2 } else { 1 };
    let bpg = u64::from(g32(&sb, 0x20));
    let groups = (img.nblocks - u64::from(g32(&sb, 0x14))).div_ceil(bpg);
    let per = bs / u64::from(dsz);
    let gdt_end = gdt + groups.div_ceil(per);
    let ipg = u64::from(g32(&sb, 0x28));
    let g8 = 7 / ipg; // the group of inode 8
    let bgd = img.peek((gdt + g8 / per) * bs + g8 % per * u64::from(dsz), usize::from(dsz));
    let table = u64::from(g32(&bgd, 8)) | if is64 { u64::from(g32(&bgd, 0x28)) << 32 } else { 0 };
    let isz = usize::from(g16(&sb, 0x58));
    if table >= img.nblocks {
        return None;
    }

    let mut out = img.clone();
    let uuid = {
        let mut u = [0u8; 16];
        for b in &mut u {
            *b = rng.next() as u8;
        }
        u
    };
    // The journal inode.
    let mut ino = vec![0u8; isz];
    p16(&mut ino, 0, S_IFREG | 0o600);
    p32(&mut ino, 4, (n as u64 * bs) as u32);
    p16(&mut ino, 0x1a, 1);
    p32(&mut ino, 0x20, FL_EXTENTS);
    p32(&mut ino, 0x64, rng.next() as u32);
    p16(&mut ino, 0x28, 0xf30a);
    p16(&mut ino, 0x2a, exts.len() as u16);
    p16(&mut ino, 0x2c, 4);
    for (i, e) in exts.iter().enumerate() {
        let o = 0x28 + 12 * (i + 1);
        p32(&mut ino, o, e.lblk);
        p16(&mut ino, o + 4, e.len);
        p16(&mut ino, o + 6, (e.phys >> 32) as u16);
        p32(&mut ino, o + 8, e.phys as u32);
    }
    if isz > 128 {
        p16(&mut ino, 0x80, 32);
    }
    if csum {
        let seed = if incompat & 0x2000 != 0 { g32(&sb, 0x270) } else { crc32c(!0, &sb[0x68..0x78]) };
        fix_inode_csum(&mut ino, seed, 8);
    }
    let pos = table * bs + (7 % ipg) * isz as u64;
    out.poke_fast(pos, &ino);
    // The blocks that are journaled.
    let room = n - 5;
    let mut cand: Vec<u64> = img.blocks.keys().copied().filter(|b| *b >= gdt_end && !img.spare.contains(b)).collect();
    cand.sort_unstable();
    for i in (1..cand.len()).rev() {
        cand.swap(i, rng.below(i as u64 + 1) as usize);
    }
    cand.retain(|b| out.get_block(*b)[..4] != JMAGIC.to_be_bytes());
    cand.truncate(1 + rng.below(room as u64) as usize);
    let mut new: Vec<(u64, Vec<u8>)> = cand.iter().map(|b| (*b, out.get_block(*b))).collect();
    // Their home locations.
    for (b, v) in &new {
        let mut old = match rng.below(4) {
            0 => vec![0; bs as usize],
            1 => v.iter().rev().copied().collect(),
            2 if !new.is_empty() => rng.pick(&new).1,
            _ => {
                let mut d = vec![0; bs as usize];
                fill_bytes(rng.next(), img.bs, *b, 0, &mut d);
                d
            }
        };
        if *b == pos / bs {
            let o = (pos % bs) as usize;
            old[o..o + isz].copy_from_slice(&ino);
        }
        out.set_block(*b, old);
    }
    p32(&mut sb, 0x5c, compat | 4);
    p32(&mut sb, 0x60, incompat | 4);
    p32(&mut sb, 0xe0, 8);
    if csum {
        fix_sb_csum(&mut sb);
    }
    // The superblock and the descriptors are logged as well. They are read
    // before the journal; both copies are the same here.
    for b in [1024 / bs, gdt + rng.below(groups.div_ceil(per))] {
        if new.len() < room && rng.chance(1, 2) {
            let mut v = out.get_block(b);
            if b == 1024 / bs {
                v[(1024 % bs) as usize..][..1024].copy_from_slice(&sb);
            }
            if v[..4] != JMAGIC.to_be_bytes() {
                new.insert(rng.below(new.len() as u64 + 1) as usize, (b, v));
            }
        }
    }
    // The log: two transactions if there is room, the first with stale versions.
    let j = Jrn { bs: bs as usize, uuid };
    let seq0 = seq_base(&mut rng);
    let mut seq = seq0;
    let mut log: Vec<Vec<u8>> = vec![];
    let two = 2 * new.len() + 5 < n && rng.chance(1, 2);
    if two {
        let stale: Vec<(u64, Vec<u8>)> = new.iter().map(|(b, _)| (*b, rng.pick(&new).1)).collect();
        let tags: Vec<(u64, &[u8])> = stale.iter().map(|(b, v)| (*b, &v[..])).collect();
        log.push(j.desc(seq, &tags, 0, &mut rng));
        log.extend(stale.iter().map(|x| x.1.clone()));
        log.push(j.commit(seq, &mut rng));
        seq = seq.wrapping_add(1);
    }
    let tags: Vec<(u64, &[u8])> = new.iter().map(|(b, v)| (*b, &v[..])).collect();
    if tags.len() > j.max_tags(true) {
        return None;
    }
    log.push(j.desc(seq, &tags, 0, &mut rng));
    log.extend(new.iter().map(|x| x.1.clone()));
    log.push(j.commit(seq, &mut rng));
    if log.len() + 1 > n {
        return None;
    }
    // Sometimes the log fills the journal exactly.
    let n = if rng.chance(1, 4) { log.len() + 1 } else { n };
    let start = 1 + rng.below(n as u64 - 1) as usize;
    out.set_block(img.spare[0], j.superblock(n as u32, start as u32, seq0, J_REVOKE | J_64BIT | J_CSUM_V3));
    for (i, d) in log.into_iter().enumerate() {
        out.set_block(img.spare[1 + (start - 1 + i) % (n - 1)], d);
    }
    out.poke_fast(1024, &sb);
    Some(out)
}

thread_local! {
    static JSEED: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
    static JDONE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// From now on, `world::load` gives the filesystem a journal (or no longer).
pub fn set_journalize(seed: Option<u64>) {
    JSEED.set(seed);
}
/// How often `maybe_journalize` added a journal.
pub fn journalized() -> u64 {
    JDONE.get()
}
pub fn maybe_journalize(img: &Rc<Img>) -> Rc<Img> {
    match JSEED.get().and_then(|s| journalize(img, Rng(s))) {
        Some(i) => {
            JDONE.set(JDONE.get() + 1);
            Rc::new(i)
        }
        None => img.clone(),
    }
}

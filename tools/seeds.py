# Planted bugs: edits of /repo (file, old, new) and a demonstration each.
SEEDS = {}
def seed(i, **kw):
    SEEDS[i] = kw

PRE = r'''
use enc::*;
use world::*;
use std::rc::Rc;
fn fs(img: &Rc<Img>) -> ext4_view::Ext4 { load(img).0.expect("load") }
'''

# ---- C01: 48-bit extent index pointers
seed("c01-index-hi", property="C01",
  needs="an extent tree of depth >= 1 whose child node lies beyond block 2^32",
  breaks="the high 16 bits of an extent index entry's child pointer are ignored, so files (and directories) whose extent tree nodes lie beyond block 2^32 are read through the wrong block",
  edits=[("src/iters/extents.rs", "let ei_leaf_hi = read_u16le(entry, 8);", "let ei_leaf_hi = 0u16;")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("64k-huge"), Rng(7));
    w.b.next_block = (1 << 32) + 5;
    let mut exts = vec![];
    let mut want = vec![];
    for i in 0..6u32 {
        let b = w.b.alloc();
        w.b.alloc();
        w.b.img.set_block(b, vec![b'a' + i as u8; 65536]);
        want.extend(vec![b'a' + i as u8; 65536]);
        exts.push(Ext { lblk: i, len: 1, phys: b, unwritten: false });
    }
    let ino = w.ino();
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.size = want.len() as u64;
    w.map_extents(ino, &mut s, &exts);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &s);
    let (img, _) = w.finish();
    let got = fs(&img).read("/f").expect("read");
    assert!(got == want, "wrong data");
    println!("ok");
}
''')

# ---- C01/C04: block map end of double indirect
seed("c01-dind-skip", property="C01",
  needs="a block-mapped file with a hole that covers a whole indirect block inside the double-indirect range, followed by data",
  breaks="a null pointer inside a double-indirect block is treated as one missing block instead of a hole of a whole indirect block, shifting all following data",
  edits=[("src/iters/file_blocks/block_map.rs", """        } else if let Some(block_index) = self.indirect_0.next() {
            self.indirect_1 =
                Some(IndirectBlockIter::new(self.fs.clone(), block_index)?);
            Ok(None)""", """        } else if let Some(block_index) = self.indirect_0.next() {
            if block_index == 0 {
                // Nothing is allocated below this entry.
                return Ok(Some(0));
            }
            self.indirect_1 =
                Some(IndirectBlockIter::new(self.fs.clone(), block_index)?);
            Ok(None)""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-plain-128"), Rng(7));
    w.extents = false;
    let per = 256u64;
    let l = 12 + per + per + 3; // second indirect block below the double one
    let b = w.b.alloc();
    w.b.img.set_block(b, vec![b'x'; 1024]);
    let ino = w.ino();
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.size = (l + 1) * 1024;
    w.map_blockmap(&mut s, &[(l, b)]);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &s);
    let (img, _) = w.finish();
    let got = fs(&img).read("/f").expect("read");
    let mut want = vec![0u8; (l * 1024) as usize];
    want.extend(vec![b'x'; 1024]);
    assert!(got == want, "wrong data");
    println!("ok");
}
''')

# ---- C02: seek from the end / current
seed("c02-block-boundary", property="C02",
  needs="a read that ends exactly at a block boundary after a seek into the middle of that block, with the buffer capped by the block end, followed by another read",
  breaks="when a read that started inside a block is cut short at the end of that block, the block is kept as current, so the next read returns that block's beginning again",
  edits=[("src/file.rs", """        if new_offset_within_block >= block_size {
            self.block_index = None;
        }""", """        if new_offset_within_block >= block_size
            && (offset_within_block == 0 || self.position < block_size.to_u64() * 12)
        {
            self.block_index = None;
        }""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-csum-64"), Rng(7));
    let data: Vec<u8> = (0..20 * 1024u32).map(|i| (i / 1024) as u8 + b'A').collect();
    w.file_data(2, b"f", S_IFREG | 0o644, &data);
    let (img, _) = w.finish();
    let mut f = fs(&img).open("/f").unwrap();
    f.seek_to(15 * 1024 + 100).unwrap();
    let mut got: Vec<u8> = vec![];
    let mut b = [0; 4096];
    loop {
        let n = f.read_bytes(&mut b).unwrap();
        if n == 0 { break; }
        got.extend(&b[..n]);
    }
    assert!(got == data[15 * 1024 + 100..], "wrong data");
    println!("ok");
}
''')

# ---- C03
seed("c03-abs-loop", property="C03",
  needs="a chain that mixes relative and absolute symlinks, with more than 40 traversals in total",
  breaks="the symlink budget is restarted whenever an absolute link is followed, so cycles through an absolute symlink never end",
  edits=[("src/resolve.rs", """                inode = fs.read_root_inode()?;
                index = 1;
""", """                inode = fs.read_root_inode()?;
                if num_symlinks > 1 {
                    // The remaining path starts afresh at the root.
                    num_symlinks = 1;
                }
                index = 1;
""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-csum-64"), Rng(7));
    w.symlink(2, b"a", b"/b");
    w.symlink(2, b"b", b"a");
    let (img, _) = w.finish();
    let f = fs(&img);
    let r = f.metadata("/a");
    assert!(matches!(r, Err(ext4_view::Ext4Error::TooManySymlinks)), "{r:?}");
    println!("ok");
}
''')
seed("c03-limit", property="C03",
  needs="a path that traverses exactly 40 symlinks",
  breaks="the 40th symlink traversal is refused",
  edits=[("src/resolve.rs", "if num_symlinks > MAX_SYMLINKS {", "if num_symlinks >= MAX_SYMLINKS {")],
  demo=PRE + r"""
fn main() {
    let mut w = World::new(&profile("1k-csum-64"), Rng(7));
    w.file_data(2, b"l0", S_IFREG | 0o644, b"hello");
    for i in 1..=41 {
        w.symlink(2, format!("l{i}").as_bytes(), format!("l{}", i - 1).as_bytes());
    }
    let (img, _) = w.finish();
    let f = fs(&img);
    assert!(f.metadata("/l41").is_err());
    assert!(f.metadata("/l40").is_ok(), "40 links refused");
    println!("ok");
}
""")

# ---- C04
# ---- C05
seed("c05-first-wins", property="C05",
  needs="a log whose later transaction contains a block that an earlier committed transaction also contains, with that block twice in separate descriptor blocks of the later transaction",
  breaks="when a transaction logs the same block in two descriptor blocks, the older copy wins",
  edits=[("src/journal/block_map.rs", """            self.uncommitted_block_map
                .insert(tag.block_index, block_index);""", """            self.uncommitted_block_map
                .entry(tag.block_index)
                .or_insert(block_index);""")],
  kit=["enc", "disk", "world", "jenc"],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-csum-64-seed"), Rng(7));
    let ino = w.file_data(2, b"f", S_IFREG | 0o644, &[b'o'; 4096]);
    let home = w.b.next_block - 1;
    let _ = ino;
    // journal: sb, D, data, D, data, C
    let j = jenc::Jrn { bs: 4096, uuid: [7; 16] };
    let start = w.b.alloc_run(16);
    let mut rng = Rng(3);
    let new1 = vec![b'1'; 4096];
    let new2 = vec![b'2'; 4096];
    w.b.img.set_block(start, j.superblock(16, 1, 5, 0x12));
    w.b.img.set_block(start + 1, j.desc(5, &[(home, &new1)], 1, &mut rng));
    w.b.img.set_block(start + 2, new1);
    w.b.img.set_block(start + 3, j.desc(5, &[(home, &new2)], 1, &mut rng));
    w.b.img.set_block(start + 4, new2);
    w.b.img.set_block(start + 5, j.commit(5, &mut rng));
    for k in 6..16 { w.b.img.set_block(start + k, vec![0; 4096]); }
    let mut s = InodeSpec::new(S_IFREG | 0o600);
    s.size = 16 * 4096;
    w.map_extents(8, &mut s, &[Ext { lblk: 0, len: 16, phys: start, unwritten: false }]);
    w.b.put_inode(8, &s);
    w.b.cfg.compat |= COMPAT_JOURNAL;
    w.b.cfg.incompat |= INCOMPAT_RECOVER;
    w.b.cfg.journal_ino = 8;
    let (img, _) = w.finish();
    assert_eq!(fs(&img).read("/f").unwrap()[0], b'2');
    println!("ok");
}
''')

# ---- C06 / C11: cache is filled before the read succeeded
seed("c06-partial-fill", property="C06",
  needs="a read of several blocks that fails, followed by a retry after the reader works again",
  breaks="the oldest cache entry is claimed for the requested block before the read is known to have succeeded, so after a failed read the block is served from the cache with another block's bytes",
  edits=[("src/block_cache.rs", """        // Read blocks into the read buffer.
        f(&mut self.read_buf[..num_bytes])?;
""", """        // Recycle the oldest entry for the requested block.
        if num_blocks == 1 {
            let mut entry = self.entries.pop_back().unwrap();
            entry.block_index = block_index;
            self.entries.push_front(entry);
        }

        // Read blocks into the read buffer.
        f(&mut self.read_buf[..num_bytes])?;
""")],
  demo=PRE + r'''
fn main() {
    // 64 KiB blocks: one block per read.
    let mut w = World::new(&profile("64k-csum-64"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, &[b'f'; 70000]);
    let (img, _) = w.finish();
    let (f, ctl) = load(&img);
    let f = f.unwrap();
    let want = fs(&img).read("/f").unwrap();
    f.metadata("/f").unwrap();
    ctl.borrow_mut().fail_all = true;
    assert!(f.read("/f").is_err());
    ctl.borrow_mut().fail_all = false;
    assert!(f.read("/f").expect("retry") == want, "retry returned other data");
    println!("ok");
}
''')

# ---- C07
seed("c07-zero-tail", property="C07",
  needs="a damaged directory leaf block whose stored checksum is also zero",
  breaks="a directory leaf block with a zero checksum is accepted without verification",
  edits=[("src/dir_block.rs", "        let expected_checksum = self.read_expected_checksum(block);", "        let is_leaf = block_type == DirBlockType::Leaf;\n        let expected_checksum = self.read_expected_checksum(block);"),
    ("src/dir_block.rs", """        if actual_checksum.finalize() == expected_checksum {
            Ok(())""", """        // Blocks written before checksums were enabled have none.
        let is_unset = is_leaf && expected_checksum == 0;
        if is_unset {
            Ok(())
        } else if actual_checksum.finalize() == expected_checksum {
            Ok(())""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-csum-64-seed"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, b"one");
    w.file_data(2, b"g", S_IFREG | 0o644, b"two");
    let blk = w.write_linear(2)[0];
    let (img, _) = w.finish();
    let mut img = Rc::try_unwrap(img).unwrap_or_else(|_| panic!());
    let mut d = img.get_block(blk);
    let p = d.windows(1).enumerate().filter(|(i, x)| x[0] == b'f' && *i > 30).map(|x| x.0).next().unwrap();
    d[p] = b'q';
    let n = d.len();
    d[n - 4..].fill(0);
    img.set_block(blk, d);
    let img = Rc::new(img);
    let r = fs(&img).read("/q");
    assert!(matches!(r, Err(ext4_view::Ext4Error::Corrupt(_))), "{r:?}");
    println!("ok");
}
''')

# ---- C08
seed("c08-itable-overflow", property="C08",
  needs="a group descriptor whose 64-bit inode table block number is near 2^64 / block size, without metadata checksums",
  breaks="an inode table location that overflows 64 bits panics instead of being reported as corruption",
  edits=[("src/inode.rs", """    let byte_offset_of_group = sb
        .block_size
        .to_u64()
        .checked_mul(group.inode_table_first_block)
        .ok_or_else(err)?;""", """    // OK to unwrap: the inode table is within the filesystem.
    let byte_offset_of_group = sb
        .block_size
        .to_u64()
        .checked_mul(group.inode_table_first_block)
        .unwrap();""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("16k-plain-64"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, b"one");
    let (img, cfg) = w.finish();
    let mut img = Rc::try_unwrap(img).unwrap_or_else(|_| panic!());
    // bg_inode_table_hi of group 0
    img.poke(u64::from(cfg.bs) + 0x28, &[0xff; 4]);
    let img = Rc::new(img);
    if let Ok(f) = load(&img).0 {
        assert!(f.read("/f").is_err());
    }
    println!("ok");
}
''')

# ---- C09
# ---- C10
seed("c10-gid-high", property="C10",
  needs="an inode whose high 16 bits of uid and gid differ",
  breaks="the high half of the group id is taken from the user id's field when the inode is stored in a large (> 256 byte) inode",
  edits=[("src/inode.rs", "let l_i_gid_high = read_u16le(data, 0x74 + 0x6);", """let l_i_gid_high =
            read_u16le(data, if data.len() > 256 { 0x74 + 0x4 } else { 0x74 + 0x6 });""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-desc128-i512"), Rng(7));
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.uid = 0x0001_0002;
    s.gid = 0x0003_0004;
    w.add(2, b"f", &s);
    let (img, _) = w.finish();
    let m = fs(&img).metadata("/f").unwrap();
    assert_eq!((m.uid(), m.gid()), (0x0001_0002, 0x0003_0004));
    println!("ok");
}
''')

# ---- C13
seed("c13-exists-notdir", property="C13",
  needs="exists() on a path that goes through a regular file",
  breaks="exists() reports Ok(false) instead of the not-a-directory error",
  edits=[("src/lib.rs", """                Err(Ext4Error::NotFound) => Ok(false),
                Err(err) => Err(err),""", """                Err(Ext4Error::NotFound | Ext4Error::NotADirectory) => {
                    Ok(false)
                }
                Err(err) => Err(err),""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-csum-64-seed"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, b"one");
    let (img, _) = w.finish();
    let r = fs(&img).exists("/f/x");
    assert!(matches!(r, Err(ext4_view::Ext4Error::NotADirectory)), "{r:?}");
    println!("ok");
}
''')

# ---- C14
seed("c14-skip-bad-tag", property="C14",
  needs="a committed transaction with several logged blocks, one of which is torn in the log",
  breaks="a logged block with a bad checksum is left out but the rest of its transaction is still applied",
  edits=[("src/journal/block_map.rs", """            if checksum.finalize() != tag.checksum {
                return Err(CorruptKind::JournalDescriptorTagChecksum.into());
            }
""", """            if checksum.finalize() != tag.checksum {
                // This block never made it to the log.
                continue;
            }
""")],
  kit=["enc", "disk", "world", "jenc"],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-csum-64-seed"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, &[b'o'; 8192]);
    let home = w.b.next_block - 2;
    let j = jenc::Jrn { bs: 4096, uuid: [7; 16] };
    let start = w.b.alloc_run(16);
    let mut rng = Rng(3);
    let new1 = vec![b'1'; 4096];
    let new2 = vec![b'2'; 4096];
    w.b.img.set_block(start, j.superblock(16, 1, 5, 0x12));
    w.b.img.set_block(start + 1, j.desc(5, &[(home, &new1), (home + 1, &new2)], 1, &mut rng));
    w.b.img.set_block(start + 2, vec![b'#'; 4096]); // torn
    w.b.img.set_block(start + 3, new2);
    w.b.img.set_block(start + 4, j.commit(5, &mut rng));
    for k in 5..16 { w.b.img.set_block(start + k, vec![0; 4096]); }
    let mut s = InodeSpec::new(S_IFREG | 0o600);
    s.size = 16 * 4096;
    w.map_extents(8, &mut s, &[Ext { lblk: 0, len: 16, phys: start, unwritten: false }]);
    w.b.put_inode(8, &s);
    w.b.cfg.compat |= COMPAT_JOURNAL;
    w.b.cfg.incompat |= INCOMPAT_RECOVER;
    w.b.cfg.journal_ino = 8;
    let (img, _) = w.finish();
    if let Ok(f) = load(&img).0 {
        assert!(f.read("/f").unwrap() == vec![b'o'; 8192], "part of the transaction is visible");
    }
    println!("ok");
}
''')

# ---- C16
seed("c16-deleted-first", property="C16",
  needs="a directory block whose first record is deleted (inode 0), followed by live records",
  breaks="a record without an inode is taken as the end of its block, so live entries after a deleted first record are neither listed nor found",
  edits=[("src/dir_entry.rs", """        let Some(points_to_inode) = InodeIndex::new(points_to_inode) else {
            return Ok((None, rec_len));
        };""", """        let Some(points_to_inode) = InodeIndex::new(points_to_inode) else {
            // The rest of the block is unused.
            let rest = NonZero::new(bytes.len()).unwrap_or(rec_len);
            return Ok((None, rest));
        };""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-csum-64"), Rng(7));
    let i = w.file_data(2, b"live", S_IFREG | 0o644, b"one");
    let d = w.dirs[&2].clone();
    let e = |ino, n: &[u8], t| Dirent { ino, name: n.to_vec(), ftype: t, pad: 0 };
    let b0 = w.b.dir_block(&[e(2, b".", 2), e(2, b"..", 2)], 2, d.meta.generation);
    let b1 = w.b.dir_block(&[e(0, b"gone", 1), e(i, b"live", 1)], 2, d.meta.generation);
    w.put_dir_blocks(2, d.meta, vec![b0, b1]);
    let (img, _) = w.finish();
    let n: Vec<_> = fs(&img).read_dir("/").unwrap().map(|e| e.unwrap().file_name().as_ref().to_vec()).collect();
    assert_eq!(n, [b".".to_vec(), b"..".to_vec(), b"live".to_vec()]);
    println!("ok");
}
''')

seed("c09-recover-csum", property="C09",
  needs="a filesystem that needs recovery and whose superblock checksum is wrong",
  breaks="the superblock checksum is not verified when the filesystem needs recovery, so a damaged superblock is accepted",
  edits=[("src/superblock.rs", """            checksum.update(&bytes[..S_CHECKSUM_OFFSET]);
            if s_checksum != checksum.finalize() {""", """            checksum.update(&bytes[..S_CHECKSUM_OFFSET]);
            // The journal may contain a newer superblock.
            if journal_inode.is_none() && s_checksum != checksum.finalize() {""")],
  kit=["enc", "disk", "world", "jenc"],
  demo=PRE + r"""
fn main() {
    let mut w = World::new(&profile("4k-csum-64-seed"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, b"one");
    let j = jenc::Jrn { bs: 4096, uuid: [7; 16] };
    let start = w.b.alloc_run(16);
    w.b.img.set_block(start, j.superblock(16, 0, 5, 0x12));
    for k in 1..16 { w.b.img.set_block(start + k, vec![0; 4096]); }
    let mut s = InodeSpec::new(S_IFREG | 0o600);
    s.size = 16 * 4096;
    w.map_extents(8, &mut s, &[Ext { lblk: 0, len: 16, phys: start, unwritten: false }]);
    w.b.put_inode(8, &s);
    w.b.cfg.compat |= COMPAT_JOURNAL;
    w.b.cfg.incompat |= INCOMPAT_RECOVER;
    w.b.cfg.journal_ino = 8;
    let (img, _) = w.finish();
    assert!(load(&img).0.is_ok());
    let mut img = Rc::try_unwrap(img).unwrap_or_else(|_| panic!());
    img.poke(1024 + 0x3fc, &[1, 2, 3, 4]);
    let r = load(&Rc::new(img)).0;
    assert!(matches!(r, Err(ext4_view::Ext4Error::Corrupt(_))), "loaded");
    println!("ok");
}
""")

STD = ["enc", "disk", "world", "jenc", "stdfs"]
# ---- C11: exists() hides reader failures
seed("c11-exists-io", property="C11", kit=STD,
  needs="exists() while the reader fails",
  breaks="exists() answers false instead of reporting the reader's error",
  edits=[("src/lib.rs", """                Ok(_) => Ok(true),
                Err(Ext4Error::NotFound) => Ok(false),
                Err(err) => Err(err),""", """                Ok(_) => Ok(true),
                Err(Ext4Error::Incompatible(err)) => {
                    Err(Ext4Error::Incompatible(err))
                }
                Err(Ext4Error::NotFound | Ext4Error::Io(_)) => Ok(false),
                Err(err) => Err(err),""")],
  demo=PRE + r'''
fn main() {
    let st = stdfs::build(&profile("4k-csum-64-seed"), &mut Rng(3));
    let (fs, ctl) = load(&st.img);
    let fs = fs.expect("load");
    ctl.borrow_mut().fail_all = true;
    assert!(matches!(fs.exists("/d/x2"), Err(ext4_view::Ext4Error::Io(_))), "hidden failure");
    println!("ok");
}
''')

# ---- C17: directory iterators share a block buffer
seed("c17-shared-dirblock", property="C17", kit=STD,
  needs="two directory iterators in use at the same time, both in the middle of a block",
  breaks="all directory iterators of a filesystem share one block buffer, so an iterator continues in the block another one read last",
  edits=[("src/iters/read_dir.rs", "            block: vec![0; fs.0.superblock.block_size.to_usize()],", "            block: fs.0.dir_scratch.clone(),"),
         ("src/iters/read_dir.rs", "    block: Vec<u8>,", "    block: Rc<core::cell::RefCell<Vec<u8>>>,"),
         ("src/iters/read_dir.rs", ".read(&mut self.block)?;", ".read(&mut self.block.borrow_mut())?;"),
         ("src/iters/read_dir.rs", "&self.block[self.offset_within_block..],", "&self.block.borrow()[self.offset_within_block..],"),
         ("src/lib.rs", "    journal: Journal,\n", "    journal: Journal,\n\n    /// Buffer for directory blocks.\n    dir_scratch: Rc<RefCell<Vec<u8>>>,\n"),
         ("src/lib.rs", "            journal: Journal::empty(),\n", "            journal: Journal::empty(),\n            dir_scratch: Rc::new(RefCell::new(vec![0; dir_block_len])),\n"),
         ("src/lib.rs", "        let mut fs = Self(Rc::new(Ext4Inner {", "        let dir_block_len = superblock.block_size.to_usize();\n        let mut fs = Self(Rc::new(Ext4Inner {"),
         ],
  demo=PRE + r'''
fn main() {
    let st = stdfs::build(&profile("4k-csum-64-seed"), &mut Rng(3));
    let (fs, _) = load(&st.img);
    let fs = fs.expect("load");
    let names = |d: &str| -> Vec<Vec<u8>> { fs.read_dir(d).unwrap().map(|e| e.unwrap().file_name().as_ref().to_vec()).collect() };
    let (wa, wb) = (names("/d"), names("/b"));
    let (mut a, mut b) = (fs.read_dir("/d").unwrap(), fs.read_dir("/b").unwrap());
    let (mut ga, mut gb) = (vec![], vec![]);
    loop {
        let (x, y) = (a.next(), b.next());
        if x.is_none() && y.is_none() {
            break;
        }
        ga.extend(x.map(|e| e.expect("a").file_name().as_ref().to_vec()));
        gb.extend(y.map(|e| e.expect("b").file_name().as_ref().to_vec()));
        assert!(ga.len() < 100 && gb.len() < 100);
    }
    assert!(ga == wa && gb == wb, "{ga:?} {gb:?}");
    println!("ok");
}
''')

# ---- C15: NULs at the end of targets
seed("c15-trailing-nul", property="C15",
  needs="a symlink target stored in a block that ends with a NUL byte",
  breaks="NUL bytes at the end of a stored target are dropped instead of being reported as corruption",
  edits=[("src/inode.rs", "            let data = ext4.read_inode_file(self)?;\n            PathBuf::try_from(data)", "            let mut data = ext4.read_inode_file(self)?;\n            // The target may be null-terminated.\n            if data.last() == Some(&0) {\n                data.pop();\n            }\n            PathBuf::try_from(data)")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-csum-64-seed"), Rng(3));
    w.extents = true;
    let mut t = vec![b'x'; 90];
    t[89] = 0;
    w.symlink(2, b"s", &t);
    let (img, _) = w.finish();
    let r = fs(&img).read_link("/s");
    assert!(matches!(r, Err(ext4_view::Ext4Error::Corrupt(_))), "{r:?}");
    println!("ok");
}
''')

# ---- C01: the longest written extent
seed("c01-extent-32768", property="C01",
  needs="an initialized extent of the maximum length, 32768 blocks",
  breaks="an initialized extent of exactly 32768 blocks loses its length to the mask of the unwritten flag and reads as a hole",
  edits=[("src/iters/extents.rs", "                num_blocks: ee_len,", "                num_blocks: ee_len & 0x7fff,")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("64k-huge"), Rng(7));
    let p = (1u64 << 32) + 100_000;
    let ino = w.ino();
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.size = 32768 * 65536;
    w.map_extents(ino, &mut s, &[Ext { lblk: 0, len: 32768, phys: p, unwritten: false }]);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &s);
    let (img, _) = w.finish();
    let mut f = fs(&img).open("/f").unwrap();
    let mut b = vec![0; 64];
    f.seek_to(5 * 65536).unwrap();
    assert_eq!(f.read_bytes(&mut b).unwrap(), 64);
    assert!(b == img.peek((p + 5) * 65536, 64), "wrong data");
    println!("ok");
}
''')

# ---- C05: revoked blocks beyond 2^32
seed("c05-revoke-high", property="C05", kit=STD,
  needs="a revocation of a block number of 2^32 or more",
  breaks="the high half of revoked block numbers is ignored, so a revoked write is applied",
  edits=[("src/journal/revocation_block.rs", "        table.push(block_index);", "        // Block numbers have 48 bits.\n        table.push(block_index & 0xffff_ffff);")],
  demo=PRE + r'''
use jenc::*;
fn main() {
    let mut rng = Rng(5);
    let mut cfg = make_cfg(&profile("64k-huge"), &mut rng);
    cfg.compat |= COMPAT_JOURNAL;
    cfg.incompat |= INCOMPAT_RECOVER;
    let mut w = World::with_cfg(cfg, rng.clone());
    w.extents = true;
    w.b.next_block = (1 << 32) + 9;
    let ino = w.ino();
    let b = w.b.alloc();
    w.b.img.set_block(b, vec![b'o'; 65536]);
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.size = 65536;
    w.map_extents(ino, &mut s, &[Ext { lblk: 0, len: 1, phys: b, unwritten: false }]);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &s);
    w.b.next_block = 5000;
    let jb = put_journal(&mut w, 20, &mut rng);
    let (mut img, _) = w.finish();
    let i = Rc::get_mut(&mut img).unwrap();
    let j = Jrn { bs: 65536, uuid: [7; 16] };
    let new = vec![b'n'; 65536];
    i.set_block(jb[1], j.desc(1, &[(b, &new[..])], 0, &mut rng));
    i.set_block(jb[2], new.clone());
    i.set_block(jb[3], j.commit(1, &mut rng));
    i.set_block(jb[4], j.revoke(2, &[b], &mut rng));
    i.set_block(jb[5], j.commit(2, &mut rng));
    i.set_block(jb[6], vec![0; 65536]);
    i.set_block(jb[0], j.superblock(20, 1, 1, J_64BIT | J_CSUM_V3 | J_REVOKE));
    assert!(fs(&img).read("/f").expect("read") == vec![b'o'; 65536], "a revoked write was applied");
    println!("ok");
}
''')

# ---- C14: an unset commit checksum
seed("c14-commit-zero-csum", property="C14", kit=STD,
  needs="a damaged commit block whose checksum field is zero",
  breaks="a commit block whose checksum field is zero is accepted without verification",
  edits=[("src/journal/commit_block.rs", "    if checksum.finalize() == expected_checksum {", "    // The field may be unset.\n    if expected_checksum == 0 || checksum.finalize() == expected_checksum {")],
  demo=PRE + r'''
use jenc::*;
fn main() {
    let mut rng = Rng(5);
    let mut cfg = make_cfg(&profile("4k-csum-64-seed"), &mut rng);
    cfg.compat |= COMPAT_JOURNAL;
    cfg.incompat |= INCOMPAT_RECOVER;
    let mut w = World::with_cfg(cfg, rng.clone());
    let ino = w.ino();
    let b = w.b.alloc();
    w.b.img.set_block(b, vec![b'o'; 4096]);
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.size = 4096;
    w.map_extents(ino, &mut s, &[Ext { lblk: 0, len: 1, phys: b, unwritten: false }]);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &s);
    let jb = put_journal(&mut w, 20, &mut rng);
    let (mut img, _) = w.finish();
    let i = Rc::get_mut(&mut img).unwrap();
    let j = Jrn { bs: 4096, uuid: [7; 16] };
    let new = vec![b'n'; 4096];
    i.set_block(jb[1], j.desc(1, &[(b, &new[..])], 0, &mut rng));
    i.set_block(jb[2], new.clone());
    let mut c = j.commit(1, &mut rng);
    c[16..].fill(0); // torn: only the first sector part was written
    i.set_block(jb[3], c);
    i.set_block(jb[4], vec![0; 4096]);
    i.set_block(jb[0], j.superblock(20, 1, 1, J_64BIT | J_CSUM_V3 | J_REVOKE));
    if let Ok(fs) = load(&img).0 {
        assert!(fs.read("/f").expect("read") == vec![b'o'; 4096], "an uncommitted transaction was applied");
    }
    println!("ok");
}
''')

# ---- C07: extent blocks that fill their block
seed("c07-dir-first-type", property="C07", kit=STD,
  needs="damage to an htree leaf block whose first record is as long as the whole leaf area",
  breaks="a directory block of an indexed directory is only verified as a leaf if its first record is in use",
  edits=[("src/dir_block.rs", "        let block_type = self.get_block_type(block);\n", "        let block_type = self.get_block_type(block);\n        if block_type == DirBlockType::Leaf && self.has_htree && read_u32le(block, 0) == 0 {\n            // Nothing in use at the start of this leaf.\n            return Ok(());\n        }\n")],
  demo=PRE + r'''
fn main() {
    let st = stdfs::build(&profile("4k-csum-64-seed"), &mut Rng(3));
    let mut img = (*st.img).clone();
    // Damage that clears the inode number of the only entry.
    let o = &st.objs["L.h.2"];
    img.poke(o.pos, &[0; 4]);
    let fs = fs(&Rc::new(img));
    let p = st.path("/h/y2");
    let r = fs.metadata(ext4_view::Path::new(&p));
    assert!(matches!(r, Err(ext4_view::Ext4Error::Corrupt(_))), "{r:?}");
    println!("ok");
}
''')

# ---- C12: pushing onto a root-like path
seed("c12-push-empty", property="C12",
  needs="joining a relative path to a path that consists of separators only, or pushing an empty path",
  breaks="pushing an empty path no longer appends the separator",
  edits=[("src/path.rs", """                *last != b'/'
            } else {""", """                *last != b'/' && !p.0.is_empty()
            } else {""")],
  demo=r'''
fn main() {
    let a = ext4_view::PathBuf::new("a").join("");
    assert!(a == "a/", "{a:?}");
    println!("ok");
}
''')

# ---- C06: a negative lookup cache
seed("c06-negative-cache", property="C06", kit=STD,
  needs="a lookup that fails because of a transient reader error, repeated after the reader works again",
  breaks="failed lookups are remembered as missing names, whatever the failure was",
  edits=[("src/dir.rs", """    for entry in ReadDir::new(fs.clone(), dir_inode, path)? {
        let entry = entry?;
        if entry.file_name() == name {
            return Inode::read(fs, entry.inode);
        }
    }

    Err(Ext4Error::NotFound)
}

#[cfg(feature = "std")]
#[cfg(test)]""", """    // Skip the search if this name was already found to be missing.
    let key = (dir_inode.index, name.as_ref().to_vec());
    if fs.0.missing_names.borrow().contains(&key) {
        return Err(Ext4Error::NotFound);
    }
    fs.0.missing_names.borrow_mut().insert(key.clone());

    for entry in ReadDir::new(fs.clone(), dir_inode, path)? {
        let entry = entry?;
        if entry.file_name() == name {
            fs.0.missing_names.borrow_mut().remove(&key);
            return Inode::read(fs, entry.inode);
        }
    }

    Err(Ext4Error::NotFound)
}

#[cfg(feature = "std")]
#[cfg(test)]"""),
   ("src/lib.rs", "    journal: Journal,\n", "    journal: Journal,\n\n    /// Names that are known to be missing.\n    missing_names: RefCell<alloc::collections::BTreeSet<(InodeIndex, Vec<u8>)>>,\n"),
   ("src/lib.rs", "            journal: Journal::empty(),\n", "            journal: Journal::empty(),\n            missing_names: RefCell::new(Default::default()),\n")],
  demo=PRE + r'''
fn main() {
    let st = stdfs::build(&profile("4k-csum-64-seed"), &mut Rng(3));
    let (fs, ctl) = load(&st.img);
    let fs = fs.expect("load");
    let o = &st.objs["L.d.2"];
    ctl.borrow_mut().bad_range = Some((o.pos, o.pos + 4096));
    let r = fs.metadata("/d/x2");
    assert!(matches!(r, Err(ext4_view::Ext4Error::Io(_))), "{r:?}");
    ctl.borrow_mut().bad_range = None;
    fs.metadata("/d/x2").expect("after the failure has passed");
    println!("ok");
}
''')

# ---- C04: partly zero hash seed
seed("c04-seed-word", property="C04",
  needs="a hash-indexed directory in a filesystem whose hash seed starts with a zero word without being all zero",
  breaks="a hash seed whose first word is zero is taken for an unset seed, so names are hashed with the default seed, looked for in the wrong leaf and not found although listing shows them",
  edits=[("src/dir_entry_hash.rs", "        if seed == &[0; 4] {", "        // (No seed is set if the first word is zero.)\n        if seed[0] == 0 {")],
  demo=PRE + r'''
fn main() {
    let p = profile("4k-csum-64-seed");
    let mut r = Rng(5);
    let mut cfg = make_cfg(&p, &mut r);
    cfg.hash_seed = [0, 0x1234_5678, 0x9abc_def0, 77];
    let hseed = cfg.hash_seed;
    let mut w = World::with_cfg(cfg, r);
    let f = w.file_data(2, b"f", S_IFREG | 0o644, b"x");
    let d = w.mkdir(2, b"d");
    // Two leaves, split at the middle hash.
    let mut names: Vec<(u32, Vec<u8>)> = (0..40).map(|i| format!("name-{i}").into_bytes()).map(|n| (dir_hash(1, &n, &hseed), n)).collect();
    names.sort();
    let ents = |v: &[(u32, Vec<u8>)]| v.iter().map(|n| Dirent { ino: f, name: n.1.clone(), ftype: 1, pad: 0 }).collect::<Vec<_>>();
    let mut spec = InodeSpec::new(S_IFDIR | 0o755);
    spec.flags |= FL_INDEX;
    let blocks = vec![
        w.b.dx_root(d, 0, 2, 1, 0, &[(0, 1), (names[20].0, 2)]),
        w.b.dir_block(&ents(&names[..20]), d, 0),
        w.b.dir_block(&ents(&names[20..]), d, 0),
    ];
    w.put_dir_blocks(d, spec, blocks);
    let (img, _) = w.finish();
    let fs = fs(&img);
    let listed = fs.read_dir("/d").expect("read_dir").map(|e| e.expect("entry")).filter(|e| !e.file_name().as_ref().starts_with(b".")).count();
    assert_eq!(listed, 40);
    for (_, n) in &names {
        let mut p = b"/d/".to_vec();
        p.extend(n);
        assert!(fs.exists(ext4_view::Path::new(&p)).expect("exists"), "{} is listed but not found", String::from_utf8_lossy(n));
    }
    println!("ok");
}
''')

# ---- C02: overflowing relative seek
seed("c02-end-overflow", property="C02",
  needs="a seek relative to the end by an offset so large that the sum exceeds the largest signed position",
  breaks="a relative seek that is out of range lands at a wrong position instead of failing without moving",
  edits=[("src/file.rs", """                    .and_then(|pos| pos.checked_add(offset))
                    .and_then(|pos| pos.try_into().ok())
                    .ok_or(ErrorKind::InvalidInput)?
            }
            SeekFrom::Current""", """                    .map(|pos| pos.saturating_add(offset))
                    .and_then(|pos| pos.try_into().ok())
                    .ok_or(ErrorKind::InvalidInput)?
            }
            SeekFrom::Current""")],
  demo=PRE + r'''
use std::io::{Seek, SeekFrom};
fn main() {
    let mut w = World::new(&profile("1k-csum-64"), Rng(5));
    w.file_data(2, b"f", S_IFREG | 0o644, &[7; 3000]);
    let (img, _) = w.finish();
    let mut f = fs(&img).open("/f").expect("open");
    f.seek_to(17).expect("seek_to");
    let r = f.seek(SeekFrom::End(i64::MAX - 5));
    assert!(r.is_err(), "{r:?}");
    assert_eq!(f.position(), 17);
    println!("ok");
}
''')

# ---- C06: block numbers narrowed in the cache
seed("c06-cache-key-u32", property="C06",
  needs="two blocks of a filesystem larger than 2^32 blocks whose numbers agree in the low 32 bits, one read while the other is still cached",
  breaks="the block cache compares 32 bits of the block number, so reading a block gives the contents of another one that was read before",
  edits=[("src/block_cache.rs", "    block_index: FsBlockIndex,\n\n    /// Block data.", "    block_index: u32,\n\n    /// Block data."),
   ("src/block_cache.rs", "                block_index: FsBlockIndex::MAX,\n", "                block_index: u32::MAX,\n"),
   ("src/block_cache.rs", ".position(|entry| entry.block_index == block_index)", ".position(|entry| entry.block_index == block_index as u32)"),
   ("src/block_cache.rs", "        assert_eq!(entry.block_index, block_index);\n        Ok(&*entry.data)", "        assert_eq!(entry.block_index, block_index as u32);\n        Ok(&*entry.data)"),
   ("src/block_cache.rs", "        entry.block_index = block_index;\n        entry.data.copy", "        entry.block_index = block_index as u32;\n        entry.data.copy")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("64k-huge"), Rng(7));
    let low = w.b.alloc();
    for (n, b) in [("low", low), ("high", low + (1 << 32))] {
        w.b.img.set_block(b, vec![n.as_bytes()[0]; 65536]);
        let ino = w.ino();
        let mut s = InodeSpec::new(S_IFREG | 0o644);
        s.size = 65536;
        w.map_extents(ino, &mut s, &[Ext { lblk: 0, len: 1, phys: b, unwritten: false }]);
        w.link(2, n.as_bytes(), ino, 1);
        w.b.put_inode(ino, &s);
    }
    let (img, _) = w.finish();
    let fs = fs(&img);
    let (mut a, mut b) = (fs.open("/low").expect("open"), fs.open("/high").expect("open"));
    let mut x = [0; 10];
    a.read_bytes(&mut x).expect("read");
    assert_eq!(x, [b'l'; 10]);
    b.read_bytes(&mut x).expect("read");
    assert_eq!(x, [b'h'; 10], "the contents of another block");
    println!("ok");
}
''')

# ---- C17: inode slots with a narrow tag
seed("c17-inode-slots", property="C17",
  needs="two inodes whose numbers differ by a multiple of 16384, the second used after the first",
  breaks="decoded inodes are kept in a small table whose tag does not hold the whole inode number, so opening a file gives a different one that was used before",
  edits=[("src/inode.rs", """        ext4: &Ext4,
        inode: InodeIndex,
    ) -> Result<Self, Ext4Error> {
        let (block_index, offset_within_block) =
            get_inode_location(ext4, inode)?;
""", """        ext4: &Ext4,
        inode: InodeIndex,
    ) -> Result<Self, Ext4Error> {
        // Recently used inodes are kept: 64 slots, tagged with the
        // number of the inode above the slot bits.
        let slot = usize_from_u32(inode.get() % 64);
        let tag = (inode.get() >> 6) as u8;
        if let Some((kept_tag, kept)) = &ext4.0.inodes.borrow()[slot] {
            if *kept_tag == tag {
                return Ok(kept.clone());
            }
        }

        let loaded = Self::load(ext4, inode)?;
        if loaded.metadata.file_type.is_regular_file() {
            ext4.0.inodes.borrow_mut()[slot] = Some((tag, loaded.clone()));
        }
        Ok(loaded)
    }

    fn load(ext4: &Ext4, inode: InodeIndex) -> Result<Self, Ext4Error> {
        let (block_index, offset_within_block) =
            get_inode_location(ext4, inode)?;
"""),
   ("src/lib.rs", "    journal: Journal,\n", "    journal: Journal,\n\n    /// Recently used inodes.\n    inodes: RefCell<alloc::vec::Vec<Option<(u8, Inode)>>>,\n"),
   ("src/lib.rs", "            journal: Journal::empty(),\n", "            journal: Journal::empty(),\n            inodes: RefCell::new(alloc::vec![None; 64]),\n")],
  demo=PRE + r'''
fn main() {
    let mut p = profile("4k-csum-64-seed");
    p.ipg = 32768;
    let mut w = World::new(&p, Rng(7));
    for (n, ino) in [("near", 100u32), ("far", 100 + 16384)] {
        let b = w.b.alloc();
        w.b.img.set_block(b, vec![n.as_bytes()[0]; 4096]);
        let mut s = InodeSpec::new(S_IFREG | 0o644);
        s.size = 4096;
        w.map_extents(ino, &mut s, &[Ext { lblk: 0, len: 1, phys: b, unwritten: false }]);
        w.link(2, n.as_bytes(), ino, 1);
        w.b.put_inode(ino, &s);
    }
    let (img, _) = w.finish();
    let fs = fs(&img);
    assert_eq!(fs.read("/near").expect("read")[0], b'n');
    assert_eq!(fs.read("/far").expect("read")[0], b'f', "the contents of another file");
    println!("ok");
}
''')

# ---- C01: long holes
seed("c01-hole-u16", property="C01",
  needs="a hole of 65536 blocks or more between two extents",
  breaks="the length of a hole between extents is kept in 16 bits, so data after a longer hole appears too early",
  edits=[("src/iters/file_blocks/extents_blocks.rs", """                        self.blocks_remaining_in_hole = extent
                            .block_within_file
                            .checked_sub(self.block_within_file)
                            .unwrap();""", """                        // Extents are at most 2^15 blocks long, so that
                        // 16 bits are enough.
                        let hole_len = extent
                            .block_within_file
                            .checked_sub(self.block_within_file)
                            .unwrap();
                        self.blocks_remaining_in_hole = hole_len & 0xffff;""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-csum-64"), Rng(7));
    let ino = w.ino();
    let b = w.b.alloc_run(2);
    w.b.img.set_block(b, vec![b'a'; 1024]);
    w.b.img.set_block(b + 1, vec![b'b'; 1024]);
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.size = 70_001 * 1024;
    w.map_extents(ino, &mut s, &[Ext { lblk: 0, len: 1, phys: b, unwritten: false }, Ext { lblk: 70_000, len: 1, phys: b + 1, unwritten: false }]);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &s);
    let (img, _) = w.finish();
    let d = fs(&img).read("/f").expect("read");
    assert!(d.len() == 70_001 * 1024 && d[70_000 * 1024..].iter().all(|x| *x == b'b'), "data after the hole");
    assert!(d[1024..70_000 * 1024].iter().all(|x| *x == 0), "the hole");
    println!("ok");
}
''')

# ---- C07: large group descriptors
seed("c07-desc-tail", property="C07",
  needs="a filesystem with metadata checksums and group descriptors of more than 64 bytes",
  breaks="only the first 64 bytes of a group descriptor are verified, so intact filesystems with larger descriptors are reported as damaged",
  edits=[("src/block_group.rs", """            checksum.update(&data[Self::BG_CHECKSUM_OFFSET + 2..]);""", """            checksum.update(
                &data[Self::BG_CHECKSUM_OFFSET + 2..data.len().min(64)],
            );""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-desc128-i512"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, b"one");
    let (img, _) = w.finish();
    assert!(fs(&img).read("/f").expect("read") == b"one");
    println!("ok");
}
''')

# ---- C08: records beyond the block
seed("c08-record-past-block", property="C08",
  needs="a directory record whose length reaches past the end of its block",
  breaks="a record that ends beyond its block panics at the next step of the iteration instead of ending the block",
  edits=[("src/iters/read_dir.rs", "        if self.offset_within_block >= block_size {", """        // The last record ends exactly at the end of the block.
        if self.offset_within_block == block_size {""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-plain-128"), Rng(7));
    let f = w.file_data(2, b"f", S_IFREG | 0o644, b"one");
    let d = w.mkdir(2, b"d");
    let e = |i: u32, n: &[u8], t: u8| Dirent { ino: i, name: n.to_vec(), ftype: t, pad: 0 };
    let mut ents = vec![e(d, b".", 2), e(2, b"..", 2)];
    let mut o = 24;
    while o < 1000 {
        ents.push(e(f, b"abcd", 1));
        o += 12;
    }
    ents.push(e(f, b"last", 1));
    let mut b = w.b.dir_block(&ents, d, 0);
    // The last record starts at `o`.
    p16(&mut b, o + 4, 400);
    w.put_dir_blocks(d, InodeSpec::new(S_IFDIR | 0o755), vec![b]);
    let (img, _) = w.finish();
    let fs = fs(&img);
    assert!(fs.read_dir("/d").expect("read_dir").count() > 10);
    println!("ok");
}
''')

# ---- C13: encrypted indexed directories
seed("c13-encrypted-index", property="C13",
  needs="an encrypted directory that is hash-indexed, listed directly",
  breaks="listing an encrypted indexed directory returns ciphertext names or corruption instead of the encryption error",
  edits=[("src/iters/read_dir.rs", """        if inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
            return Err(Ext4Error::Encrypted);
        }""", """        // (Indexed directories are handled by the lookup.)
        if inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) && !has_htree
        {
            return Err(Ext4Error::Encrypted);
        }""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-csum-64-seed"), Rng(7));
    let f = w.file_data(2, b"f", S_IFREG | 0o644, b"one");
    let d = w.mkdir(2, b"d");
    let mut s = InodeSpec::new(S_IFDIR | 0o755);
    s.flags |= FL_INDEX | FL_ENCRYPT;
    let e = [Dirent { ino: f, name: b"\x90\x91cipher".to_vec(), ftype: 1, pad: 0 }];
    let blocks = vec![w.b.dx_root(d, 0, 2, 1, 0, &[(0, 1)]), w.b.dir_block(&e, d, 0)];
    w.put_dir_blocks(d, s, blocks);
    let (img, _) = w.finish();
    let fs = fs(&img);
    assert!(matches!(fs.read_dir("/d").map(|_| ()), Err(ext4_view::Ext4Error::Encrypted)), "an encrypted directory was listed");
    println!("ok");
}
''')

# ---- C05: transaction ids wrap around
seed("c05-seq-wrap", property="C05",
  needs="a log in which the transaction id wraps from 2^32 - 1 to 0",
  breaks="the blocks of the transactions after the wrap are verified with the wrong transaction id and not applied",
  edits=[("src/journal/block_map.rs", """            checksum.update_u32_be(self.sequence);""", """            // Never verify with an id older than the log's start.
            checksum.update_u32_be(
                self.sequence.max(self.superblock.sequence),
            );""")],
  kit=["enc", "disk", "world", "jenc"],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("4k-csum-64-seed"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, &[b'o'; 8192]);
    let home = w.b.next_block - 2;
    let j = jenc::Jrn { bs: 4096, uuid: [7; 16] };
    let start = w.b.alloc_run(16);
    let mut rng = Rng(3);
    let new1 = vec![b'1'; 4096];
    let new2 = vec![b'2'; 4096];
    w.b.img.set_block(start, j.superblock(16, 1, u32::MAX, 0x12));
    w.b.img.set_block(start + 1, j.desc(u32::MAX, &[(home, &new1)], 1, &mut rng));
    w.b.img.set_block(start + 2, new1.clone());
    w.b.img.set_block(start + 3, j.commit(u32::MAX, &mut rng));
    w.b.img.set_block(start + 4, j.desc(0, &[(home + 1, &new2)], 1, &mut rng));
    w.b.img.set_block(start + 5, new2.clone());
    w.b.img.set_block(start + 6, j.commit(0, &mut rng));
    for k in 7..16 { w.b.img.set_block(start + k, vec![0; 4096]); }
    let mut s = InodeSpec::new(S_IFREG | 0o600);
    s.size = 16 * 4096;
    w.map_extents(8, &mut s, &[Ext { lblk: 0, len: 16, phys: start, unwritten: false }]);
    w.b.put_inode(8, &s);
    w.b.cfg.compat |= COMPAT_JOURNAL;
    w.b.cfg.incompat |= INCOMPAT_RECOVER;
    w.b.cfg.journal_ino = 8;
    let (img, _) = w.finish();
    assert!(fs(&img).read("/f").expect("read") == [new1, new2].concat(), "a committed transaction is missing");
    println!("ok");
}
''')

# ---- C09: one inode per block
seed("c09-inode-fills-block", property="C09",
  needs="a filesystem whose inodes are as large as its blocks",
  breaks="such a filesystem is rejected as corrupt",
  edits=[("src/superblock.rs", "        if s_inode_size > block_size {", "        if u32::from(s_inode_size) >= block_size.to_u32() {")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-csum-i1024"), Rng(7));
    w.file_data(2, b"f", S_IFREG | 0o644, b"one");
    let (img, _) = w.finish();
    assert!(fs(&img).read("/f").expect("read") == b"one");
    println!("ok");
}
''')

# ---- C01: the last block of the filesystem
seed("c01-last-block", property="C01",
  needs="a file with data in the very last block of the filesystem",
  breaks="reading the last block of the filesystem is refused as out of bounds",
  edits=[("src/lib.rs", "        if block_index >= self.0.superblock.blocks_count {", """        // The end of the read must be within the filesystem.
        let end_block = block_index.saturating_add(1);
        if end_block >= self.0.superblock.blocks_count {""")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-csum-64"), Rng(7));
    let ino = w.ino();
    let b = w.b.cfg.blocks - 1;
    w.b.img.set_block(b, vec![b'z'; 1024]);
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.size = 1000;
    w.map_extents(ino, &mut s, &[Ext { lblk: 0, len: 1, phys: b, unwritten: false }]);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &s);
    let (img, _) = w.finish();
    assert_eq!(fs(&img).read("/f").expect("read"), vec![b'z'; 1000]);
    println!("ok");
}
''')

# ---- C02: more than 32 bits remain
seed("c02-remaining-u32", property="C02",
  needs="reading a large file where the number of bytes that remain is a multiple of 2^32",
  breaks="a read returns 0 bytes, as at the end of the file, when a multiple of 4 GiB remains",
  edits=[("src/file.rs", "        if let Ok(bytes_remaining) = usize::try_from(bytes_remaining) {", "        if let Ok(bytes_remaining) =\n            usize::try_from(bytes_remaining & u64::from(u32::MAX))\n        {")],
  demo=PRE + r'''
fn main() {
    let mut w = World::new(&profile("1k-csum-64"), Rng(7));
    let mut s = InodeSpec::new(S_IFREG | 0o644);
    s.size = (1 << 32) + 100;
    let ino = w.ino();
    w.map_extents(ino, &mut s, &[]);
    w.link(2, b"f", ino, 1);
    w.b.put_inode(ino, &s);
    let (img, _) = w.finish();
    let mut f = fs(&img).open("/f").expect("open");
    f.seek_to(100).expect("seek");
    let mut buf = [1u8; 10];
    assert!(f.read_bytes(&mut buf).expect("read") > 0, "end of file before the end");
    println!("ok");
}
''')

# ---- C10
seed("c10-label-15", property="C10",
  needs="a volume label of exactly 15 bytes",
  breaks="the text of a 15-byte label has a NUL at the end",
  edits=[("src/label.rs", "        if let Some(index) = self.0.iter().position(|c| *c == 0) {", "        // The last byte is always part of the label or its terminator.\n        let (_, head) = self.0.split_last().unwrap();\n        if let Some(index) = head.iter().position(|c| *c == 0) {")],
  demo=PRE + r'''
fn main() {
    let mut rng = Rng(5);
    let mut cfg = make_cfg(&profile("1k-csum-64"), &mut rng);
    cfg.label = *b"fifteen-letters\0";
    let (img, _) = World::with_cfg(cfg, rng).finish();
    assert_eq!(fs(&img).label().to_str().unwrap(), "fifteen-letters");
    println!("ok");
}
''')

# ---- C14: the superblock of an empty journal
seed("c14-empty-log-csum", property="C14", kit=STD,
  needs="a journal superblock whose checksum is wrong while the recovery flag is set and the log is empty",
  breaks="a damaged journal superblock that says that the log is empty is accepted, and recovery skipped",
  edits=[("src/journal/superblock.rs", "        if checksum.finalize() != s_checksum {", "        // Nothing depends on the superblock of an empty log.\n        if s_start != 0 && checksum.finalize() != s_checksum {")],
  demo=PRE + r'''
use jenc::*;
fn main() {
    let mut rng = Rng(5);
    let mut cfg = make_cfg(&profile("4k-csum-64-seed"), &mut rng);
    cfg.compat |= COMPAT_JOURNAL;
    cfg.incompat |= INCOMPAT_RECOVER;
    let mut w = World::with_cfg(cfg, rng.clone());
    let jb = put_journal(&mut w, 20, &mut rng);
    let (mut img, _) = w.finish();
    let i = Rc::get_mut(&mut img).unwrap();
    let j = Jrn { bs: 4096, uuid: [7; 16] };
    let mut sb = j.superblock(20, 1, 1, J_64BIT | J_CSUM_V3 | J_REVOKE);
    sb[0x1c..0x20].fill(0); // the start of the log was lost
    i.set_block(jb[0], sb);
    assert!(load(&img).0.is_err(), "a damaged journal superblock was accepted");
    println!("ok");
}
''')

//! Strict parser of the ZIP format (APPNOTE 6.3.x, stored entries, ZIP64), written independently from zippity.
//! Works on random access to the archive, so that it can be used on archives that don't fit anywhere.
//! Checks that every redundant piece of information agrees and that records tile the file.

use crate::ensure;

pub trait Fetch {
    fn size(&self) -> u64;
    fn get(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String>;
}

pub struct Mem<'a>(pub &'a [u8]);
impl Fetch for Mem<'_> {
    fn size(&self) -> u64 {
        self.0.len() as u64
    }
    fn get(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String> {
        let o = usize::try_from(off).map_err(|e| e.to_string())?;
        self.0
            .get(o..o.saturating_add(len))
            .map(<[u8]>::to_vec)
            .ok_or_else(|| format!("record at {off}+{len} reaches outside of the file ({} B)", self.0.len()))
    }
}

#[derive(Clone, Debug)]
pub struct PEntry {
    pub name: Vec<u8>,
    pub time: u16,
    pub date: u16,
    pub crc: u32,
    pub size: u64,
    pub header_off: u64,
    pub data_off: u64,
    pub desc_off: u64,
    pub end: u64,
    pub cd_off: u64,
    pub ext_attr: u32,
    pub host: u8,
}

impl PEntry {
    pub fn mode(&self) -> u32 {
        self.ext_attr >> 16
    }
    /// (y, m, d, h, m, s)
    pub fn datetime(&self) -> (i32, u32, u32, u32, u32, u32) {
        (
            i32::from(self.date >> 9) + 1980,
            u32::from((self.date >> 5) & 15),
            u32::from(self.date & 31),
            u32::from(self.time >> 11),
            u32::from((self.time >> 5) & 63),
            u32::from(self.time & 31) * 2,
        )
    }
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub entries: Vec<PEntry>,
    pub cd_off: u64,
    pub cd_size: u64,
    pub end_off: u64,
    pub size: u64,
    /// Interesting positions: starts of all records and their parts
    pub boundaries: Vec<u64>,
}

impl Parsed {
    pub fn find(&self, name: &str) -> Option<&PEntry> {
        self.entries.iter().find(|e| e.name == name.as_bytes())
    }
}

fn u16_at(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn u32_at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64_at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

/// Splits extra field to (id, payload) blocks
fn extra_blocks(b: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut out = Vec::new();
    let mut o = 0;
    while o < b.len() {
        ensure!(b.len() - o >= 4, "extra field: {} stray bytes", b.len() - o);
        let id = u16_at(b, o);
        let len = usize::from(u16_at(b, o + 2));
        ensure!(b.len() - o - 4 >= len, "extra field block {id:04x} of {len} B overflows the extra field");
        out.push((id, b[o + 4..o + 4 + len].to_vec()));
        o += 4 + len;
    }
    Ok(out)
}

fn zip64_block(blocks: &[(u16, Vec<u8>)]) -> Result<Option<&Vec<u8>>, String> {
    let mut it = blocks.iter().filter(|(id, _)| *id == 1);
    let first = it.next();
    ensure!(it.next().is_none(), "more than one ZIP64 extra field");
    Ok(first.map(|(_, b)| b))
}

pub fn parse(f: &mut dyn Fetch) -> Result<Parsed, String> {
    let size = f.size();
    let mut boundaries = vec![0, size];
    ensure!(size >= 22, "file of {size} B can't hold an end of central directory record");

    // End of central directory
    let eocd_off = size - 22;
    let e = f.get(eocd_off, 22)?;
    ensure!(u32_at(&e, 0) == 0x0605_4b50, "no end of central directory signature at {eocd_off}");
    ensure!(u16_at(&e, 20) == 0, "EOCD comment length is not zero");
    let (d0, d1) = (u16_at(&e, 4), u16_at(&e, 6));
    let (n0, n1) = (u16_at(&e, 8), u16_at(&e, 10));
    let (s32, o32) = (u32_at(&e, 12), u32_at(&e, 16));
    boundaries.push(eocd_off);

    let mut loc = None;
    if eocd_off >= 20 {
        let l = f.get(eocd_off - 20, 20)?;
        if u32_at(&l, 0) == 0x0706_4b50 {
            loc = Some(l);
        }
    }
    let needs64 = n0 == 0xffff || n1 == 0xffff || s32 == u32::MAX || o32 == u32::MAX;
    let (count, cd_size, cd_off, end_off);
    if let Some(l) = loc {
        boundaries.push(eocd_off - 20);
        ensure!(u32_at(&l, 4) == 0, "ZIP64 locator: disk number {}", u32_at(&l, 4));
        let z_off = u64_at(&l, 8);
        ensure!(u32_at(&l, 16) == 1, "ZIP64 locator: {} disks", u32_at(&l, 16));
        ensure!(
            z_off.checked_add(56).is_some_and(|x| x <= eocd_off - 20),
            "ZIP64 EOCD offset {z_off} is past the locator"
        );
        let z = f.get(z_off, 56)?;
        ensure!(u32_at(&z, 0) == 0x0606_4b50, "no ZIP64 EOCD signature at {z_off}");
        let zlen = u64_at(&z, 4);
        ensure!(
            zlen.checked_add(12 + z_off) == Some(eocd_off - 20),
            "ZIP64 EOCD record of {zlen}+12 B at {z_off} doesn't end at its locator {}",
            eocd_off - 20
        );
        ensure!(zlen == 44, "ZIP64 EOCD has {zlen} B, extensible data are not expected");
        ensure!(u16_at(&z, 14) == 45, "ZIP64 EOCD version needed {}, ZIP64 needs 45", u16_at(&z, 14));
        ensure!(u32_at(&z, 16) == 0 && u32_at(&z, 20) == 0, "ZIP64 EOCD disk numbers not zero");
        let (a, b) = (u64_at(&z, 24), u64_at(&z, 32));
        ensure!(a == b, "ZIP64 EOCD entry counts differ: {a} {b}");
        count = a;
        cd_size = u64_at(&z, 40);
        cd_off = u64_at(&z, 48);
        ensure!(n0 == 0xffff || u64::from(n0) == count, "EOCD count {n0} but ZIP64 {count}");
        ensure!(n1 == 0xffff || u64::from(n1) == count, "EOCD count {n1} but ZIP64 {count}");
        ensure!(s32 == u32::MAX || u64::from(s32) == cd_size, "EOCD CD size {s32} but ZIP64 {cd_size}");
        ensure!(o32 == u32::MAX || u64::from(o32) == cd_off, "EOCD CD offset {o32} but ZIP64 {cd_off}");
        ensure!(d0 == 0 || d0 == 0xffff, "EOCD disk number");
        ensure!(d1 == 0 || d1 == 0xffff, "EOCD CD disk number");
        end_off = z_off;
    } else {
        ensure!(!needs64, "EOCD has placeholders without ZIP64 records");
        ensure!(d0 == 0 && d1 == 0, "EOCD disk numbers");
        ensure!(n0 == n1, "EOCD counts differ");
        count = n0.into();
        cd_size = s32.into();
        cd_off = o32.into();
        end_off = eocd_off;
    }
    boundaries.push(end_off);
    boundaries.push(cd_off);
    ensure!(
        cd_off.checked_add(cd_size) == Some(end_off),
        "central directory {cd_off}+{cd_size} doesn't end at the end records {end_off}"
    );

    // Central directory
    let mut entries = Vec::new();
    let mut pos = cd_off;
    let mut expected_off = 0u64;
    let mut seen = std::collections::HashSet::new();
    let mut window = Window { start: 0, data: Vec::new() };
    while pos < end_off {
        let i = entries.len();
        ensure!((i as u64) < count, "more central directory records than the {count} announced");
        let h = window.get(f, pos, 46, end_off)?;
        ensure!(u32_at(&h, 0) == 0x0201_4b50, "CD record {i}: bad signature at {pos}");
        let made_ver = h[4];
        let host = h[5];
        let need = u16_at(&h, 6);
        let flags = u16_at(&h, 8);
        let method = u16_at(&h, 10);
        let (time, date) = (u16_at(&h, 12), u16_at(&h, 14));
        let crc = u32_at(&h, 16);
        let (c32, u32_) = (u32_at(&h, 20), u32_at(&h, 24));
        let nl = usize::from(u16_at(&h, 28));
        let xl = usize::from(u16_at(&h, 30));
        ensure!(u16_at(&h, 32) == 0, "CD record {i}: comment length not zero");
        let disk = u16_at(&h, 34);
        let ext_attr = u32_at(&h, 38);
        let lo32 = u32_at(&h, 42);
        let rest = window.get(f, pos + 46, nl + xl, end_off)?;
        let name = rest[..nl].to_vec();
        let blocks = extra_blocks(&rest[nl..]).map_err(|e| format!("CD record {i}: {e}"))?;
        let z = zip64_block(&blocks).map_err(|e| format!("CD record {i}: {e}"))?;
        let mut zpos = 0;
        let mut next64 = |what: &str| -> Result<u64, String> {
            let z = z.ok_or_else(|| format!("CD record {i}: {what} is a placeholder without a ZIP64 field"))?;
            ensure!(z.len() >= zpos + 8, "CD record {i}: ZIP64 field too short for {what}");
            zpos += 8;
            Ok(u64_at(z, zpos - 8))
        };
        let usize_ = if u32_ == u32::MAX { next64("uncompressed size")? } else { u32_.into() };
        let csize = if c32 == u32::MAX { next64("compressed size")? } else { c32.into() };
        let off = if lo32 == u32::MAX { next64("local header offset")? } else { lo32.into() };
        ensure!(disk == 0, "CD record {i}: disk number {disk}");
        if let Some(z) = z {
            ensure!(z.len() == zpos, "CD record {i}: ZIP64 field has {} B, {zpos} B expected", z.len());
            ensure!(need >= 45, "CD record {i}: ZIP64 used but version needed is {need}");
        }
        ensure!(made_ver >= 20 || need <= u16::from(made_ver), "CD record {i}: version made by {made_ver}");
        ensure!(need <= 45, "CD record {i}: version needed {need}, but nothing newer than ZIP64 (45) is used");
        ensure!(method == 0, "CD record {i}: method {method}");
        ensure!(csize == usize_, "CD record {i}: sizes {csize} and {usize_} differ for a stored entry");
        ensure!(std::str::from_utf8(&name).is_ok(), "CD record {i}: name isn't UTF-8");
        ensure!(flags & 0x0800 != 0, "CD record {i}: UTF-8 flag missing");
        ensure!(flags & !0x0808 == 0, "CD record {i}: unexpected flags {flags:04x}");
        ensure!(seen.insert(name.clone()), "CD record {i}: duplicate name");

        // Local header
        ensure!(off == expected_off, "CD record {i}: local header offset {off}, previous entry ends at {expected_off}");
        boundaries.push(off);
        let l = f.get(off, 30).map_err(|e| format!("local header {i}: {e}"))?;
        ensure!(u32_at(&l, 0) == 0x0403_4b50, "local header {i}: bad signature at {off}");
        let lneed = u16_at(&l, 4);
        let lflags = u16_at(&l, 6);
        ensure!(lneed == need, "local header {i}: version needed {lneed} differs from CD {need}");
        ensure!(u16_at(&l, 8) == method, "local header {i}: method {}", u16_at(&l, 8));
        ensure!(
            (u16_at(&l, 10), u16_at(&l, 12)) == (time, date),
            "local header {i}: timestamp {:04x}:{:04x} differs from CD {date:04x}:{time:04x}",
            u16_at(&l, 12),
            u16_at(&l, 10)
        );
        let lcrc = u32_at(&l, 14);
        let (lc32, lu32) = (u32_at(&l, 18), u32_at(&l, 22));
        let lnl = usize::from(u16_at(&l, 26));
        let lxl = usize::from(u16_at(&l, 28));
        let lrest = f.get(off + 30, lnl + lxl).map_err(|e| format!("local header {i}: {e}"))?;
        ensure!(lrest[..lnl] == name[..], "local header {i}: name differs from the one in CD");
        ensure!(lflags == flags, "local header {i}: flags {lflags:04x} differ from CD {flags:04x}");
        let has_desc = lflags & 8 != 0;
        let lblocks = extra_blocks(&lrest[lnl..]).map_err(|e| format!("local header {i}: {e}"))?;
        let lz = zip64_block(&lblocks).map_err(|e| format!("local header {i}: {e}"))?;
        let sizes: Vec<u64> = if let Some(lz) = lz {
            ensure!(lneed >= 45, "local header {i}: ZIP64 used but version needed is {lneed}");
            ensure!(lz.len() == 16 || lz.len() == 24, "local header {i}: ZIP64 field has {} B", lz.len());
            ensure!(
                lc32 == u32::MAX && lu32 == u32::MAX,
                "local header {i}: ZIP64 field without placeholders ({lc32:x}, {lu32:x})"
            );
            if lz.len() == 24 {
                ensure!(u64_at(lz, 16) == off, "local header {i}: ZIP64 field says offset {} not {off}", u64_at(lz, 16));
            }
            vec![u64_at(lz, 0), u64_at(lz, 8)]
        } else {
            ensure!(lc32 != u32::MAX && lu32 != u32::MAX, "local header {i}: placeholders without a ZIP64 field");
            vec![lc32.into(), lu32.into()]
        };
        for s in sizes {
            ensure!(
                s == usize_ || (has_desc && s == 0),
                "local header {i}: size {s}, central directory says {usize_}"
            );
        }
        ensure!(lcrc == crc || (has_desc && lcrc == 0), "local header {i}: CRC {lcrc:08x}, CD {crc:08x}");
        let data_off = off + 30 + (lnl + lxl) as u64;
        boundaries.push(off + 30);
        boundaries.push(off + 30 + lnl as u64);
        boundaries.push(data_off);
        let desc_off = data_off
            .checked_add(usize_)
            .filter(|d| *d <= cd_off)
            .ok_or_else(|| format!("entry {i}: data {data_off}+{usize_} overlap the central directory {cd_off}"))?;
        let mut end = desc_off;
        if has_desc {
            boundaries.push(desc_off);
            let len = if lz.is_some() { 24 } else { 16 };
            let d = f.get(desc_off, len).map_err(|e| format!("data descriptor {i}: {e}"))?;
            ensure!(u32_at(&d, 0) == 0x0807_4b50, "data descriptor {i}: bad signature at {desc_off}");
            ensure!(u32_at(&d, 4) == crc, "data descriptor {i}: CRC {:08x}, CD {crc:08x}", u32_at(&d, 4));
            let (a, b) = if len == 24 {
                (u64_at(&d, 8), u64_at(&d, 16))
            } else {
                (u32_at(&d, 8).into(), u32_at(&d, 12).into())
            };
            ensure!(a == usize_ && b == usize_, "data descriptor {i}: sizes {a}, {b}, CD {usize_}");
            end += len as u64;
        }
        expected_off = end;
        boundaries.push(pos);
        boundaries.push(pos + 46);
        boundaries.push(pos + 46 + nl as u64);
        entries.push(PEntry {
            name,
            time,
            date,
            crc,
            size: usize_,
            header_off: off,
            data_off,
            desc_off,
            end,
            cd_off: pos,
            ext_attr,
            host,
        });
        pos += 46 + (nl + xl) as u64;
    }
    ensure!(pos == end_off, "central directory records end at {pos}, end records start at {end_off}");
    ensure!(entries.len() as u64 == count, "{} central directory records, {count} announced", entries.len());
    ensure!(expected_off == cd_off, "entries end at {expected_off}, central directory starts at {cd_off}");
    boundaries.sort_unstable();
    boundaries.dedup();
    Ok(Parsed {
        entries,
        cd_off,
        cd_size,
        end_off,
        size,
        boundaries,
    })
}

/// Read ahead for the central directory, to keep the number of random accesses low for big archives
struct Window {
    start: u64,
    data: Vec<u8>,
}
impl Window {
    fn get(&mut self, f: &mut dyn Fetch, off: u64, len: usize, limit: u64) -> Result<Vec<u8>, String> {
        ensure!(
            off.checked_add(len as u64).is_some_and(|e| e <= limit),
            "CD record at {off} reaches past the central directory end {limit}"
        );
        let inside = off >= self.start && off + len as u64 <= self.start + self.data.len() as u64;
        if !inside {
            let want = (len as u64).max(256 * 1024).min(limit - off);
            self.data = f.get(off, want as usize)?;
            self.start = off;
        }
        let o = (off - self.start) as usize;
        Ok(self.data[o..o + len].to_vec())
    }
}

pub fn parse_mem(b: &[u8]) -> Result<Parsed, String> {
    parse(&mut Mem(b))
}

/// Parses and additionally verifies CRC of all entries against data in the archive
pub fn parse_mem_full(b: &[u8]) -> Result<Parsed, String> {
    let p = parse_mem(b)?;
    for (i, e) in p.entries.iter().enumerate() {
        let d = &b[e.data_off as usize..e.desc_off as usize];
        let c = crc32fast::hash(d);
        ensure!(c == e.crc, "entry {i}: recorded CRC {:08x}, data in the archive has {c:08x}", e.crc);
    }
    Ok(p)
}

//! Independent decoder of the files of one map, written from the format comments of the source.
//! It shares no code with the database.
use crate::disk::*;
use crate::prog::Kt;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Debug, Clone)]
pub struct Decoded {
    /// in index order
    pub entries: Vec<(Vec<u8>, Vec<u8>)>,
    pub nodes: u64,
    pub depth: u64,
    /// keys in a node -> nodes
    pub node_keys: BTreeMap<u64, u64>,
    /// size -> pieces in use, of keys and of values
    pub pieces: [BTreeMap<u64, u64>; 2],
    /// free pieces by class, of keys and of values
    pub free_by: [Vec<u64>; 2],
    pub free_key: u64,
    pub free_val: u64,
    pub free_idx: u64,
    pub slots_used: u64,
    /// (file, offset, length) of byte ranges that are neither live nor free
    pub leaks: Vec<(&'static str, u64, u64)>,
    pub sizes: [u64; 4],
}

struct F {
    name: &'static str,
    /// without the hole
    b: Vec<u8>,
    hole: (u64, u64),
    /// claimed ranges: start -> (end, what)
    used: BTreeMap<u64, (u64, String)>,
}
impl F {
    fn len(&self) -> u64 {
        self.b.len() as u64 + self.hole.1
    }
    fn at(&self, o: u64, n: u64) -> Option<&[u8]> {
        let e = o.checked_add(n)?;
        let (s, l) = self.hole;
        if e <= s {
            self.b.get(o as usize..e as usize)
        } else if o >= s + l {
            self.b.get((o - l) as usize..(e - l) as usize)
        } else {
            None
        }
    }
    fn u16(&self, o: u64) -> Result<u64, String> {
        Ok(u16::from_le_bytes(self.bytes(o, 2)?.try_into().unwrap()) as u64)
    }
    fn u32(&self, o: u64) -> Result<u64, String> {
        Ok(u32::from_le_bytes(self.bytes(o, 4)?.try_into().unwrap()) as u64)
    }
    fn u64(&self, o: u64) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.bytes(o, 8)?.try_into().unwrap()))
    }
    fn bytes(&self, o: u64, n: u64) -> Result<&[u8], String> {
        self.at(o, n)
            .ok_or_else(|| format!("{}: read of {} bytes at {}, where no data is (end {})", self.name, n, o, self.len()))
    }
    fn claim(&mut self, start: u64, len: u64, what: String) -> Result<(), String> {
        if start % 8 != 0 || len == 0 || len % 8 != 0 {
            return Err(format!("{}: {} has an odd place or size: {}+{}", self.name, what, start, len));
        }
        let end = start + len;
        if end > self.len() {
            return Err(format!(
                "{}: {} at {}+{} reaches past the end of the file ({})",
                self.name,
                what,
                start,
                len,
                self.len()
            ));
        }
        if let Some((s, (e, w))) = self.used.range(..end).next_back() {
            if *e > start {
                return Err(format!(
                    "{}: {} at {}..{} overlaps {} at {}..{}",
                    self.name, what, start, end, w, s, e
                ));
            }
        }
        self.used.insert(start, (end, what));
        Ok(())
    }
    /// `class`: the size of the pieces of this list, or the smallest size for the last list
    fn free_list(&mut self, head: u64, class: Option<(u64, bool)>, one: &mut Option<u64>) -> Result<u64, String> {
        let mut o = self.u64(head)?;
        let mut n = 0;
        let mut seen = BTreeSet::new();
        while o != 0 {
            if !seen.insert(o) {
                return Err(format!("{}: free list at header {} is a loop", self.name, head));
            }
            let size = self.u32(o)?;
            let len = self.u32(o + 4)?;
            if len != 0 {
                return Err(format!("{}: free piece at {} is not marked free", self.name, o));
            }
            let next = self.u64(o + 8)?;
            if let Some((c, last)) = class {
                if size != c && !(last && size > c) {
                    return Err(format!(
                        "{}: free piece at {} of size {} is on the list at header {} for size {}",
                        self.name, o, size, head, c
                    ));
                }
            } else if *one.get_or_insert(size) != size {
                return Err(format!("{}: pieces of sizes {} and {} on the list at header {}", self.name, one.unwrap(), size, head));
            }
            self.claim(o, size, format!("free piece (list {})", head))?;
            o = next;
            n += 1;
        }
        Ok(n)
    }
    fn zeros(&self, from: u64, to: u64) -> Result<(), String> {
        match (from..to).find(|i| self.b[*i as usize] != 0) {
            Some(i) => Err(format!("{}: the reserved header byte {} is not zero", self.name, i)),
            None => Ok(()),
        }
    }
    fn gaps(&self, out: &mut Vec<(&'static str, u64, u64)>) {
        let mut at = 0;
        for (s, (e, _)) in &self.used {
            if *s > at {
                out.push((self.name, at, s - at));
            }
            at = *e;
        }
        if at < self.len() {
            out.push((self.name, at, self.len() - at));
        }
    }
}

/// sizes of key and value pieces; larger ones are multiples of 128
pub const CLASSES: [u64; 16] = [16, 24, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896, 1024];
fn class_ok(size: u64) -> bool {
    CLASSES.contains(&size) || (size > 1024 && size % 128 == 0)
}

fn sig(kt: Kt) -> &'static [u8; 8] {
    match kt {
        Kt::S => b"string\0\0",
        Kt::I => b"uint64\0\0",
        Kt::B => b"bytes\0\0\0",
    }
}

struct Walk<'a> {
    key: &'a mut F,
    val: &'a mut F,
    idx: &'a mut F,
    d: Decoded,
    leaf_depth: Option<u64>,
    live_keys: BTreeMap<u64, usize>,
    visited: u64,
}

impl Walk<'_> {
    fn entry(&mut self, ko: u64) -> Result<(), String> {
        let size = self.key.u32(ko)?;
        let klen = self.key.u32(ko + 4)?;
        let k = self.key.bytes(ko + 8, klen)?.to_vec();
        let vo = self.key.u64(ko + 8 + klen)?;
        if 8 + klen + 8 > size {
            return Err(format!("key: piece at {} of size {} is too small for its key of {}", ko, size, klen));
        }
        if !class_ok(size) {
            return Err(format!("key: piece at {} has size {}, which is no piece size", ko, size));
        }
        self.key.claim(ko, size, "key piece".into())?;
        let vsize = self.val.u32(vo)?;
        let vlen = self.val.u32(vo + 4)?;
        if 8 + vlen > vsize {
            return Err(format!("val: piece at {} of size {} is too small for its value of {}", vo, vsize, vlen));
        }
        let v = self.val.bytes(vo + 8, vlen)?.to_vec();
        if !class_ok(vsize) {
            return Err(format!("val: piece at {} has size {}, which is no piece size", vo, vsize));
        }
        self.val.claim(vo, vsize, "value piece".into())?;
        *self.d.pieces[0].entry(size).or_insert(0) += 1;
        *self.d.pieces[1].entry(vsize).or_insert(0) += 1;
        if let Some((pk, _)) = self.d.entries.last() {
            if *pk >= k {
                return Err(format!("idx: keys out of order: {:?} then {:?}", short(pk), short(&k)));
            }
        }
        self.live_keys.insert(ko, self.d.entries.len());
        self.d.entries.push((k, v));
        Ok(())
    }
    fn node(&mut self, o: u64, depth: u64) -> Result<(), String> {
        self.visited += 1;
        if depth > 64 || self.visited > 1_000_000 {
            return Err("idx: the node tree does not end".into());
        }
        let size = self.idx.u16(o)?;
        let leaf = self.idx.u16(o + 2)?;
        let n = self.idx.u16(o + 4)?;
        let need = 6 + n * 8 + if leaf == 0 { (n + 1) * 8 } else { 0 };
        if leaf > 1 {
            return Err(format!("idx: node at {} has leaf flag {}", o, leaf));
        }
        if need > size {
            return Err(format!("idx: node at {} of size {} cannot hold {} keys", o, size, n));
        }
        self.idx.claim(o, size, "node".into())?;
        self.d.nodes += 1;
        *self.d.node_keys.entry(n).or_insert(0) += 1;
        self.d.depth = self.d.depth.max(depth);
        if leaf == 1 {
            if *self.leaf_depth.get_or_insert(depth) != depth {
                return Err(format!("idx: leaf at depth {} and at {}", depth, self.leaf_depth.unwrap()));
            }
        }
        for i in 0..=n {
            if leaf == 0 {
                let down = self.idx.u64(o + 6 + n * 8 + i * 8)?;
                if down == 0 {
                    return Err(format!("idx: inner node at {} has an empty branch", o));
                }
                self.node(down, depth + 1)?;
            }
            if i < n {
                let ko = self.idx.u64(o + 6 + i * 8)?;
                self.entry(ko)?;
            }
        }
        Ok(())
    }
}

pub fn short(b: &[u8]) -> String {
    let s: String = b.iter().take(24).map(|c| std::ascii::escape_default(*c).to_string()).collect();
    if b.len() > 24 {
        format!("{}..({})", s, b.len())
    } else {
        s
    }
}

/// the hash of a key as files written so far have it: the length, then the key in words of 8 bytes (the rest
/// big-endian), an xorshift after each
pub fn file_hash(k: &[u8]) -> u64 {
    let f = |mut x: u64| {
        x ^= x >> 12;
        x ^= x << 25;
        x ^ x >> 27
    };
    k.chunks(8).fold(f(k.len() as u64), |h, c| {
        f(h.wrapping_add(match <[u8; 8]>::try_from(c) {
            Ok(w) => u64::from_le_bytes(w),
            Err(_) => c.iter().fold(0, |a, b| a << 8 | *b as u64),
        }))
    })
}

/// hash of a key to its slot (`hash_of`) comes from the public hashing interface
pub fn decode(disk: &Disk, base: &str, kt: Kt, hash_of: &dyn Fn(&[u8]) -> u64) -> Result<Decoded, String> {
    let load = |ext: &'static str| -> Result<F, String> {
        let path = format!("{}.{}", base, ext);
        let b = disk.slurp(&path).ok_or_else(|| format!("{}.{} does not exist", base, ext))?;
        let hole = disk.hole(&path).unwrap_or((b.len() as u64, 0));
        Ok(F { name: ext, b, hole, used: BTreeMap::new() })
    };
    let (mut key, mut val, mut idx) = (load("key")?, load("val")?, load("idx")?);
    for (f, magic, hsz) in [
        (&mut key, b"siamdbK\0", 192u64),
        (&mut val, b"siamdbV\0", 192),
        (&mut idx, b"siamdbT\0", 128),
    ] {
        if f.b.len() < hsz as usize {
            return Err(format!("{}: shorter than its header: {}", f.name, f.b.len()));
        }
        if &f.b[0..8] != magic {
            return Err(format!("{}: bad file signature {:?}", f.name, short(&f.b[0..8])));
        }
        if &f.b[8..16] != sig(kt) {
            return Err(format!("{}: bad type signature {:?}", f.name, short(&f.b[8..16])));
        }
        f.claim(0, hsz, "header".into())?;
        if f.hole.1 > 0 {
            f.claim(f.hole.0, f.hole.1, "the data in the hole".into())?;
        }
    }
    let mut d = Decoded::default();
    d.sizes = [key.len(), val.len(), idx.len(), 0];
    for f in [&key, &val] {
        f.zeros(16, 32)?;
        f.zeros(160, 192)?;
    }
    idx.zeros(88, 128)?;
    let top = idx.u64(16)?;
    let mut w = Walk {
        key: &mut key,
        val: &mut val,
        idx: &mut idx,
        d,
        leaf_depth: None,
        live_keys: BTreeMap::new(),
        visited: 0,
    };
    w.node(top, 1)?;
    let live = std::mem::take(&mut w.live_keys);
    let mut d = w.d;
    for i in 0..16 {
        let class = Some((CLASSES[i as usize], i == 15));
        let (a, b) = (key.free_list(32 + 8 * i, class, &mut None)?, val.free_list(32 + 8 * i, class, &mut None)?);
        d.free_by[0].push(a);
        d.free_by[1].push(b);
        d.free_key += a;
        d.free_val += b;
    }
    let mut sizes: Vec<u64> = vec![];
    for i in 0..8 {
        let mut one = None;
        d.free_idx += idx.free_list(24 + 8 * i, None, &mut one)?;
        if let Some(x) = one {
            if sizes.last().map_or(false, |y| *y >= x) {
                return Err(format!("idx: the free lists are out of order at header {}: {} then {}", 24 + 8 * i, sizes.last().unwrap(), x));
            }
            sizes.push(x);
        }
    }
    key.gaps(&mut d.leaks);
    val.gaps(&mut d.leaks);
    idx.gaps(&mut d.leaks);
    // hash table
    let h = disk.file(&format!("{}.htx", base)).ok_or_else(|| format!("{}.htx does not exist", base))?;
    let mut hd = [0u8; 32];
    h.read_at(0, &mut hd);
    if &hd[0..8] != b"siamdbH\0" || &hd[8..16] != sig(kt) {
        return Err(format!("htx: bad signature {:?}", short(&hd[0..16])));
    }
    let ht = u64::from_le_bytes(hd[16..24].try_into().unwrap());
    if ht == 0 {
        return Err("htx: table size 0".into());
    }
    if h.len != 128 + 8 * ht {
        return Err(format!("htx: {} slots in a file of {} bytes", ht, h.len));
    }
    d.sizes[3] = h.len;
    let at = |o: u64| -> u64 {
        let mut b = [0u8; 8];
        h.read_at(o, &mut b);
        u64::from_le_bytes(b)
    };
    for (p, pg) in &h.pages {
        let s = p * PAGE as u64;
        if pg.iter().all(|x| *x == 0) {
            continue;
        }
        for o in (s..s + PAGE as u64).step_by(8) {
            if o < 128 || o >= h.len {
                continue;
            }
            let off = at(o);
            if off == 0 {
                continue;
            }
            let slot = (o - 128) / 8;
            d.slots_used += 1;
            match live.get(&off) {
                None => return Err(format!("htx: slot {} points to {} which is no live key", slot, off)),
                Some(i) => {
                    let k = &d.entries[*i].0;
                    if hash_of(k) % ht != slot {
                        return Err(format!("htx: slot {} points to key {:?} of slot {}", slot, short(k), hash_of(k) % ht));
                    }
                }
            }
        }
    }
    if let Some(o) = (32..128).step_by(8).find(|o| at(*o) != 0) {
        return Err(format!("htx: the reserved header bytes at {} are not zero", o));
    }
    Ok(d)
}

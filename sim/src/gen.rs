//! Programs from seeds: one workload profile per property, then faults placed on the system calls
//! that a fault-free run of the same program really makes.
use crate::disk::*;
use crate::exec::hash_of;
use crate::prog::*;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};

const HT: u64 = 16 * 1024 * 1024;

/// keys with interesting hash slots, per key type
pub struct Pools {
    near: [Vec<KeySpec>; 3],
    /// groups of keys that share a slot
    coll: [Vec<Vec<KeySpec>>; 3],
    misc: [Vec<KeySpec>; 3],
    crowd: [std::cell::OnceCell<Vec<KeySpec>>; 3],
}

fn cand(kt: Kt, i: u64) -> Vec<u8> {
    match kt {
        Kt::S => format!("k{:05}", i).into_bytes(),
        Kt::I => (i * 3).to_be_bytes().to_vec(),
        Kt::B => {
            let mut v = (i as u32).to_be_bytes().to_vec();
            v.push(0xff);
            v
        }
    }
}

/// keys without a pattern
fn wild(kt: Kt, i: u64) -> Vec<u8> {
    let x = mix(i, 0x5eed);
    match kt {
        Kt::S => format!("{:x}", x).into_bytes(),
        Kt::I => x.to_be_bytes().to_vec(),
        Kt::B => x.to_le_bytes()[..4 + (i % 5) as usize].to_vec(),
    }
}

/// two keys of 16 bytes with the same hash, computed from the hash function as it is today
fn same_hash(kt: Kt, i: u64) -> Option<Vec<KeySpec>> {
    let f = |mut x: u64| {
        x ^= x >> 12;
        x ^= x << 25;
        x ^ x >> 27
    };
    let half = |j: u64| match kt {
        Kt::S => format!("{:08}", mix(j, i) % 100_000_000).into_bytes().try_into().unwrap(),
        _ => mix(j, i).to_le_bytes(),
    };
    let mid = |h: [u8; 8]| f(f(16).wrapping_add(u64::from_le_bytes(h)));
    let a = half(0);
    let b = half(1);
    let sum = mid(a).wrapping_add(u64::from_le_bytes(b));
    for j in 2..20_000 {
        let c = half(j);
        let d = sum.wrapping_sub(mid(c)).to_le_bytes();
        if kt == Kt::S && !d.is_ascii() {
            continue;
        }
        let (x, y) = ([a, b].concat(), [c, d].concat());
        if x != y && hash_of(kt, &x) == hash_of(kt, &y) {
            return Some(vec![KeySpec::Hex(x), KeySpec::Hex(y)]);
        }
        break;
    }
    None
}

impl Pools {
    pub fn new() -> Self {
        let mut near: [Vec<KeySpec>; 3] = Default::default();
        let mut coll: [Vec<Vec<KeySpec>>; 3] = Default::default();
        let mut misc: [Vec<KeySpec>; 3] = Default::default();
        for kt in [Kt::S, Kt::I, Kt::B] {
            for i in 0..200_000u64 {
                let b = cand(kt, i);
                // the same few 128 KiB pieces of the table
                if (500..504).contains(&(hash_of(kt, &b) % HT / 16384)) && near[kt.ix()].len() < 600 {
                    near[kt.ix()].push(KeySpec::Hex(b));
                }
            }
            // keys from one small family never meet in a slot, these do
            let mut slots: Vec<(u64, u64)> = (0..300_000u64).map(|i| (hash_of(kt, &wild(kt, i)) % HT, i)).collect();
            slots.sort_unstable();
            let mut pairs = 0;
            for l in slots.chunk_by(|a, b| a.0 == b.0) {
                if l.len() > 2 || (l.len() == 2 && pairs < 60) {
                    pairs += (l.len() == 2) as u32;
                    coll[kt.ix()].push(l.iter().map(|x| KeySpec::Hex(wild(kt, x.1))).collect());
                }
            }
            // a hash function that spreads in another way still gets keys
            let mut i = 0u64;
            while near[kt.ix()].len() < 600 {
                near[kt.ix()].push(KeySpec::Hex(cand(kt, 900_000 + i)));
                i += 1;
            }
            // some even have the same hash
            if kt != Kt::I {
                for i in 0..6 {
                    coll[kt.ix()].extend(same_hash(kt, i));
                }
            }
            if coll[kt.ix()].is_empty() {
                coll[kt.ix()].push(vec![KeySpec::Hex(cand(kt, 1)), KeySpec::Hex(cand(kt, 2))]);
            }
            let m = &mut misc[kt.ix()];
            match kt {
                Kt::I => {
                    for x in [
                        0u64,
                        1,
                        2,
                        127,
                        128,
                        255,
                        256,
                        65535,
                        65536,
                        (1 << 31) - 1,
                        1 << 31,
                        (1 << 32) - 1,
                        1 << 32,
                        (1 << 63) - 1,
                        1 << 63,
                        u64::MAX - 1,
                        u64::MAX,
                        0x0102030405060708,
                        0x0807060504030201,
                    ] {
                        m.push(KeySpec::Hex(x.to_be_bytes().to_vec()));
                    }
                }
                _ => {
                    m.push(KeySpec::Hex(vec![]));
                    for p in ["a", "ab", "abc", "abcd", "abcdefgh", "abcdefghi", "b", "B", "0", " ", "~"] {
                        m.push(KeySpec::Hex(p.as_bytes().to_vec()));
                    }
                    for p in ["é", "漢字", "😀", "a\u{0}", "a\u{0}b", "\u{0}", "z\u{7f}"] {
                        m.push(KeySpec::Hex(p.as_bytes().to_vec()));
                    }
                    if kt == Kt::B {
                        for p in [&[0u8][..], &[0, 0], &[0xff], &[0xff, 0xff], &[0xff, 0], &[0x80], &[0x7f], &[0, 1], &[0xfe, 0xff]] {
                            m.push(KeySpec::Hex(p.to_vec()));
                        }
                    }
                    // lengths around the piece sizes (a key piece has 16 bytes besides the key)
                    for sz in [24u32, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896, 1024, 1152] {
                        for d in [-1i32, 0, 1] {
                            m.push(KeySpec::Gen((sz as i32 - 16 + d) as u32, sz));
                        }
                    }
                    // and where the length takes another byte to write down
                    for l in [126u32, 127, 129, 254, 255, 256, 257] {
                        m.push(KeySpec::Gen(l, l));
                    }
                    for l in [16383u32, 16384, 16385, 65535, 65536] {
                        m.push(KeySpec::Gen(l, l));
                    }
                    m.push(KeySpec::Gen(3000, 7));
                    m.push(KeySpec::Gen(5000, 8));
                }
            }
        }
        Pools { near, coll, misc, crowd: Default::default() }
    }
    /// thousands of keys, most of them near one another in the hash table
    fn crowd(&self, kt: Kt) -> &[KeySpec] {
        self.crowd[kt.ix()].get_or_init(|| {
            let mut v: Vec<KeySpec> = vec![];
            for i in 0..1_000_000u64 {
                let b = cand(kt, i);
                if i < 20 || (500..504).contains(&(hash_of(kt, &b) % HT / 16384)) {
                    v.push(KeySpec::Hex(b));
                }
            }
            let mut i = 0;
            while v.len() < 3500 {
                i += 1;
                v.push(KeySpec::Hex(cand(kt, 2_000_000 + i)));
            }
            v
        })
    }
}

#[derive(Clone, Copy)]
enum W {
    Put,
    Get,
    Del,
    BPut,
    BGet,
    BDel,
    Flush,
    SyncAll,
    SyncData,
    DbSync,
    Iter,
    Fill,
    Check,
    Rate,
    Verify,
    ProbeK,
    ProbeP,
    CrashK,
    CrashP,
    Reopen,
    Clone,
    Again,
    DropH,
    DropDb,
    Wb,
    SaveAudit,
    WrongType,
    BadSig,
    ReadBurst,
}
type Ws = Vec<(W, u64)>;

struct Cfg {
    dbs: (u64, u64),
    maps: (u64, u64),
    /// key pool sizes to choose from
    pool: Vec<u64>,
    ops: (u64, u64),
    w: Ws,
    /// start with this many keys put in bulk (permille of runs that do)
    preload: u64,
    /// structure checks and audits at the end
    tail_struct: bool,
    /// parameters: 0 mixed, 1 small caches, 2 default only
    params: u8,
    huge: bool,
}

struct G<'a> {
    r: Rng,
    p: Prog,
    pools: &'a Pools,
    small: bool,
    nk: [usize; 3],
    present: Vec<BTreeSet<usize>>,
    /// keys that share a slot of the hash table
    twins: [Vec<Vec<usize>>; 3],
    /// the key of a map that has a slot to itself, by the key
    owner: Vec<BTreeMap<usize, usize>>,
    handles: Vec<u8>,
    db_open: Vec<bool>,
    map_open: Vec<bool>,
    map_in_db: Vec<bool>,
    vmode: u64,
    kmode: u64,
    cursor: usize,
    fills: u32,
    /// values of megabytes still allowed
    fat: u32,
    /// files may grow beyond 4 GiB at a close
    far: bool,
    /// lengths of values that are nearly the same
    alike: Vec<u32>,
    tag: u32,
    phase: u64,
}

const LONG: &str = "a-rather-long-name-of-a-map-that-goes-on-and-on-and-on-until-it-is-about-as-long-as-a-file-name-may-be-once-the-extension-is-added-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789";
const NAMES: &[&str] = &["m", "m1", "map", "a", "a.b", "x-y_z", "M", "m.key", "名", "data", "m2", "idx", "", "a b", "..", "%", "-", "map.siamesedb", LONG];

impl G<'_> {
    fn op(&mut self, k: OpKind) {
        if let OpKind::Fill { .. } | OpKind::Rate { .. } = k {
            // reads the whole hash table file: a few times are enough
            if self.fills >= if crate::TINY { 1 } else { 3 } {
                return;
            }
            self.fills += 1;
        }
        self.p.ops.push(Op::new(k));
    }
    fn vlen(&mut self) -> u32 {
        let classes = [16u32, 24, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896, 1024, 1152, 1280, 2048];
        match self.vmode {
            0 => self.r.below(12) as u32,
            1 => {
                let c = *self.r.pick(&classes);
                let d = self.r.below(3) as i32 - 1;
                (c as i32 - 8 + d).max(0) as u32
            }
            2 => match self.r.below(10) {
                0..=4 => self.r.below(60) as u32,
                5..=7 => self.r.below(1100) as u32,
                8 => 1000 + self.r.below(3000) as u32,
                _ => 4000 + self.r.below(300) as u32,
            },
            3 => match self.r.below(12) {
                0..=6 => self.r.below(100) as u32,
                7..=8 => 4000 + self.r.below(6000) as u32,
                9 => 20_000 + self.r.below(40_000) as u32,
                10 => 131_000 + self.r.below(200) as u32,
                _ => 120_000 + self.r.below(180_000) as u32,
            },
            // where the length takes another byte to write down, and chunks end
            5 => match self.r.below(80) {
                0..=39 => 120 + self.r.below(12) as u32,
                40..=54 => 240 + self.r.below(30) as u32,
                55..=69 => 16370 + self.r.below(20) as u32,
                70..=73 => 32750 + self.r.below(30) as u32,
                74..=76 => 65520 + self.r.below(24) as u32,
                77 | 78 => 131_060 + self.r.below(20) as u32,
                _ if self.fat > 2 => {
                    self.fat = 1;
                    16_777_200 + self.r.below(30) as u32
                }
                _ if self.fat > 0 => {
                    self.fat -= 1;
                    2_097_140 + self.r.below(20) as u32
                }
                _ => 0,
            },
            _ => 64,
        }
    }
    fn val(&mut self) -> Val {
        self.tag += 1;
        if !self.alike.is_empty() && self.r.chance(3, 4) {
            let len = *self.r.pick(&self.alike);
            let var = if self.r.chance(1, 2) { self.r.below(4) } else { self.r.below(VARIANTS as u64) };
            return Val { len, tag: ALIKE | 1 << 8 | var as u32 };
        }
        let len = self.vlen();
        Val { len, tag: self.tag * 4 + self.r.below(4) as u32 }
    }
    fn kix(&mut self, m: usize) -> usize {
        let n = self.nk[self.p.maps[m].kt.ix()];
        match self.kmode {
            1 => {
                // hot set
                if self.r.chance(3, 4) {
                    self.r.below((n as u64 / 5).max(1)) as usize
                } else {
                    self.r.below(n as u64) as usize
                }
            }
            2 => {
                self.cursor += 1;
                self.cursor % n
            }
            3 => {
                self.cursor += 1;
                n - 1 - self.cursor % n
            }
            _ => self.r.below(n as u64) as usize,
        }
    }
    /// a key whose slot another key has taken over
    fn displaced(&mut self, m: usize) -> Option<usize> {
        let kt = self.p.maps[m].kt.ix();
        if self.twins[kt].is_empty() {
            return None;
        }
        let g = self.r.below(self.twins[kt].len() as u64) as usize;
        let own = self.owner[m].get(&g).copied()?;
        let l: Vec<usize> = self.twins[kt][g].iter().copied().filter(|k| *k != own && self.present[m].contains(k)).collect();
        if l.is_empty() {
            None
        } else {
            Some(*self.r.pick(&l))
        }
    }
    fn stored(&mut self, m: usize, k: usize) {
        if !self.present[m].insert(k) {
            return;
        }
        let kt = self.p.maps[m].kt.ix();
        if let Some(g) = self.twins[kt].iter().position(|t| t.contains(&k)) {
            self.owner[m].insert(g, k);
        }
    }
    /// a key that is probably there
    fn kin(&mut self, m: usize) -> usize {
        if self.r.chance(1, 5) {
            if let Some(k) = self.displaced(m) {
                return k;
            }
        }
        let n = self.present[m].len();
        if n > 0 && self.r.chance(4, 5) {
            let i = match self.phase % 3 {
                1 => 0,
                2 => n - 1,
                _ => self.r.below(n as u64) as usize,
            };
            *self.present[m].iter().nth(i).unwrap()
        } else {
            self.kix(m)
        }
    }
    fn a_map(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.map_open.len()).filter(|m| self.map_open[*m]).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    fn h(&mut self, m: usize) -> u8 {
        let n = self.handles[m].max(1) as u64;
        self.r.below(n) as u8
    }
    fn map(&mut self, m: usize) {
        if self.map_open[m] || !self.db_open[self.p.maps[m].db] {
            return;
        }
        let p = self.r.below(self.p.params.len() as u64) as usize;
        self.op(OpKind::Map { m, p });
        self.map_open[m] = true;
        self.map_in_db[m] = true;
        self.handles[m] = 1;
    }
    fn open_all(&mut self) {
        for d in 0..self.p.dbs {
            if !self.db_open[d] {
                self.op(OpKind::Open(d));
                self.db_open[d] = true;
            }
        }
        for m in 0..self.p.maps.len() {
            self.map(m);
        }
    }
    fn close(&mut self, d: usize) {
        self.op(OpKind::Close(d));
        self.db_open[d] = false;
        for m in 0..self.p.maps.len() {
            if self.p.maps[m].db == d {
                self.map_open[m] = false;
                self.map_in_db[m] = false;
                self.handles[m] = 0;
                if self.far && self.r.chance(1, 2) {
                    let f = 1 + self.r.below(7) as u8;
                    self.op(OpKind::Far { m, f });
                }
            }
        }
    }
    fn put(&mut self, m: usize, k: usize) {
        let v = self.val();
        let h = self.h(m);
        let s = self.r.chance(1, 5);
        self.stored(m, k);
        self.op(OpKind::Put { m, h, k, v, s });
    }
    fn del(&mut self, m: usize, k: usize) {
        let h = self.h(m);
        let s = self.r.chance(1, 6);
        self.present[m].remove(&k);
        self.op(OpKind::Del { m, h, k, s });
    }
    fn bput(&mut self, m: usize, n: usize, dup: bool) {
        let mut ks: Vec<usize> = (0..n).map(|_| self.kix(m)).collect();
        if !dup {
            let mut seen = BTreeSet::new();
            ks.retain(|k| seen.insert(*k));
        }
        let mut kv = vec![];
        for k in ks {
            let v = self.val();
            self.stored(m, k);
            kv.push((k, v));
        }
        let h = self.h(m);
        let s = self.r.chance(1, 4);
        self.op(OpKind::BPut { m, h, kv, s });
    }
    fn save(&mut self, m: usize) {
        let h = self.h(m);
        if self.r.chance(1, 2) {
            self.op(OpKind::SyncAll { m, h });
        } else {
            self.op(OpKind::SyncData { m, h });
        }
    }
    fn reads(&mut self, m: usize, n: u64) {
        for _ in 0..n {
            let h = self.h(m);
            match self.r.below(8) {
                0 => {
                    let form = self.r.below(6) as u8;
                    let n = if self.r.chance(1, 2) { 0 } else { self.r.below(20) as u32 };
                    self.op(OpKind::Iter { m, h, form, n });
                }
                1 => {
                    let ks = (0..self.r.below(6)).map(|_| self.kin(m)).collect();
                    let s = self.r.chance(1, 4);
                    self.op(OpKind::BGet { m, h, ks, s });
                }
                2 => self.op(OpKind::Fill { m, h }),
                3 => {
                    if self.r.chance(1, 2) {
                        self.op(OpKind::Flush { m, h })
                    } else {
                        self.save(m)
                    }
                }
                4 => self.op(OpKind::Check { m }),
                _ => {
                    let k = self.kin(m);
                    let s = self.r.chance(1, 4);
                    self.op(OpKind::Get { m, h, k, s })
                }
            }
        }
    }
    /// the size of a bulk: small for the most part, now and then beyond the small cases of a sort
    fn many(&mut self, n: u64) -> u64 {
        if self.r.chance(1, 8) {
            16 + self.r.below(70)
        } else {
            self.r.below(n)
        }
    }
    fn step(&mut self, w: W) {
        let m = match self.a_map() {
            Some(m) => m,
            None => {
                self.open_all();
                return;
            }
        };
        let h = self.h(m);
        match w {
            W::Put => {
                let k = if self.phase >= 6 && self.r.chance(2, 3) { self.kin(m) } else { self.kix(m) };
                self.put(m, k)
            }
            W::Get => {
                let k = if self.r.chance(1, 4) { self.kix(m) } else { self.kin(m) };
                let s = self.r.chance(1, 6);
                self.op(OpKind::Get { m, h, k, s });
            }
            W::Del => {
                let k = self.kin(m);
                self.del(m, k)
            }
            W::BPut => {
                let n = self.many(12) as usize;
                let dup = self.r.chance(1, 4);
                self.bput(m, n, dup)
            }
            W::BGet => {
                let n = self.many(12);
                let ks = (0..n).map(|_| self.kin(m)).collect();
                let s = self.r.chance(1, 4);
                self.op(OpKind::BGet { m, h, ks, s });
            }
            W::BDel => {
                let n = self.many(10);
                let ks: Vec<usize> = (0..n).map(|_| self.kin(m)).collect();
                for k in &ks {
                    self.present[m].remove(k);
                }
                let s = self.r.chance(1, 4);
                self.op(OpKind::BDel { m, h, ks, s });
            }
            W::Flush => self.op(OpKind::Flush { m, h }),
            W::SyncAll => self.op(OpKind::SyncAll { m, h }),
            W::SyncData => self.op(OpKind::SyncData { m, h }),
            W::DbSync => {
                let d = self.p.maps[m].db;
                let all = self.r.chance(1, 2);
                if self.db_open[d] {
                    self.op(OpKind::DbSync { d, all });
                }
            }
            W::Iter => {
                let form = self.r.below(6) as u8;
                let n = if self.r.chance(2, 3) { 0 } else { self.r.below(30) as u32 };
                self.op(OpKind::Iter { m, h, form, n });
            }
            W::Fill => self.op(OpKind::Fill { m, h }),
            W::Check => self.op(OpKind::Check { m }),
            W::Rate => self.op(OpKind::Rate { m }),
            W::Verify => self.op(OpKind::Verify { m }),
            W::ProbeK => self.op(OpKind::Probe { power: None }),
            W::ProbeP => {
                let s = self.r.next() >> 40;
                self.op(OpKind::Probe { power: Some(s) })
            }
            W::CrashK | W::CrashP => {
                let power = if matches!(w, W::CrashP) { Some(self.r.next() >> 40) } else { None };
                self.op(OpKind::Crash { power });
                for x in self.db_open.iter_mut() {
                    *x = false;
                }
                for m in 0..self.map_open.len() {
                    self.map_open[m] = false;
                    self.map_in_db[m] = false;
                    self.handles[m] = 0;
                }
                self.open_all();
            }
            W::Reopen => {
                let d = self.p.maps[m].db;
                self.close(d);
                self.open_all();
                if self.r.chance(1, 2) {
                    self.op(OpKind::Verify { m });
                }
            }
            W::Clone => {
                if self.handles[m] < 6 {
                    self.handles[m] += 1;
                    self.op(OpKind::CloneH { m });
                }
            }
            W::Again => {
                if self.map_in_db[m] && self.handles[m] < 6 {
                    self.handles[m] += 1;
                    let p = self.r.below(self.p.params.len() as u64) as usize;
                    self.op(OpKind::Again { m, p });
                }
            }
            W::DropH => {
                if self.handles[m] > 1 {
                    self.handles[m] -= 1;
                    self.op(OpKind::DropH { m });
                } else if self.map_open[m] && !self.map_in_db[m] {
                    // the last handle of a map whose database object is gone
                    self.op(OpKind::DropH { m });
                    self.handles[m] = 0;
                    self.map_open[m] = false;
                    self.map(m);
                }
            }
            W::DropDb => {
                let d = self.p.maps[m].db;
                if self.db_open[d] {
                    self.op(OpKind::DropDb(d));
                    self.db_open[d] = false;
                    for x in 0..self.p.maps.len() {
                        if self.p.maps[x].db == d {
                            self.map_in_db[x] = false;
                        }
                    }
                    if self.r.chance(1, 3) {
                        // a second object for the same directory, while maps of the first are in use
                        self.op(OpKind::Open(d));
                        self.db_open[d] = true;
                        for x in 0..self.p.maps.len() {
                            if self.p.maps[x].db == d && self.r.chance(1, 3) {
                                while self.handles[x] > 0 {
                                    self.op(OpKind::DropH { m: x });
                                    self.handles[x] -= 1;
                                }
                                self.map_open[x] = false;
                                self.map(x);
                            }
                        }
                    }
                } else {
                    self.close(d);
                    self.open_all();
                }
            }
            W::Wb => {
                let s = self.r.next() >> 40;
                self.op(OpKind::Wb(s))
            }
            W::SaveAudit => {
                if self.r.chance(1, 2) {
                    self.op(OpKind::Flush { m, h });
                } else {
                    self.save(m);
                }
                self.op(OpKind::Audit { m });
            }
            W::WrongType => {
                let kt = *self.r.pick(&[Kt::S, Kt::I, Kt::B]);
                let h = self.h(m);
                let flush = self.r.chance(2, 3);
                if flush {
                    self.op(OpKind::Flush { m, h });
                }
                if flush && self.r.chance(1, 2) {
                    let d = self.p.maps[m].db;
                    self.close(d);
                    self.op(OpKind::Open(d));
                    self.db_open[d] = true;
                    self.op(OpKind::WrongType { m, kt });
                    self.open_all();
                } else {
                    self.op(OpKind::WrongType { m, kt });
                }
                self.op(OpKind::Verify { m });
            }
            W::BadSig => {
                let d = self.p.maps[m].db;
                self.close(d);
                self.op(OpKind::Open(d));
                self.db_open[d] = true;
                let (file, byte) = (self.r.below(4) as u8, self.r.below(16) as u8);
                self.op(OpKind::BadSig { m, file, byte });
                self.open_all();
                self.op(OpKind::Verify { m });
            }
            W::ReadBurst => {
                if self.r.chance(1, 2) {
                    self.save(m);
                } else {
                    let h = self.h(m);
                    self.op(OpKind::Flush { m, h });
                }
                let n = 3 + self.r.below(12);
                self.reads(m, n);
            }
        }
    }
}

fn buf(r: &mut Rng, small: bool) -> Buf {
    if small {
        return Buf::Size(2 + r.below(2) as u32);
    }
    match r.below(7) {
        0 | 1 => Buf::Size(r.below(6) as u32),
        2 => Buf::Auto,
        6 => odd_buf(r),
        3 => Buf::PerMille(r.below(1000) as u16),
        4 => Buf::PerMille(1000),
        _ => Buf::Size(2 + r.below(30) as u32),
    }
}
/// sizes that are no multiple of anything, and extreme ones
fn odd_buf(r: &mut Rng) -> Buf {
    let c = crate::CHUNK as u64;
    match r.below(6) {
        0 => Buf::Bytes(r.below(8) as u32),
        1 => Buf::Bytes((c * (1 + r.below(6)) - 1 + r.below(3)) as u32),
        2 => Buf::Bytes(r.below(40 * c) as u32),
        3 => Buf::Bytes((c * (1 + r.below(0x7fff)) + r.below(c)).min(u32::MAX as u64) as u32),
        4 => Buf::PerMille(r.below(65536) as u16),
        _ => Buf::PerMille(*r.pick(&[0, 1, 999, 1001, 2000, 65535])),
    }
}
fn params(r: &mut Rng, kind: u8) -> Params {
    let mut p = params_(r, kind);
    if crate::TINY && matches!(p.htx, Buf::PerMille(x) if x > 20) {
        // a quarter of a million chunks, walked through by every flush
        p.htx = Buf::PerMille(r.below(20) as u16);
    }
    p
}
fn params_(r: &mut Rng, kind: u8) -> Params {
    if crate::TINY && kind != 2 && r.chance(3, 4) {
        // a file is worth many chunks, a buffer few
        let b = |r: &mut Rng| match r.below(8) {
            0 => Buf::Auto,
            1 => Buf::PerMille(r.below(1001) as u16),
            2 => Buf::Size(5 + r.below(20) as u32),
            3 => odd_buf(r),
            _ => Buf::Size(2 + r.below(4) as u32),
        };
        return Params { default: false, val: b(r), key: b(r), idx: b(r), htx: b(r) };
    }
    match kind {
        2 => DEFAULT_PARAMS,
        1 => {
            let b = |r: &mut Rng| if r.chance(2, 3) { buf(r, true) } else { Buf::Auto };
            Params { default: false, val: b(r), key: b(r), idx: b(r), htx: buf(r, true) }
        }
        _ => {
            if r.chance(1, 4) {
                DEFAULT_PARAMS
            } else {
                Params { default: false, val: buf(r, false), key: buf(r, false), idx: buf(r, false), htx: buf(r, false) }
            }
        }
    }
}

fn cfg(prop: &str, r: &mut Rng) -> Cfg {
    use W::*;
    let pool = vec![3, 8, 20, 60, 200];
    let mut c = Cfg {
        dbs: (1, 1),
        maps: (1, 2),
        pool,
        ops: (40, 260),
        w: vec![
            (Put, 40),
            (Get, 18),
            (Del, 26),
            (BPut, 3),
            (BDel, 2),
            (Iter, 2),
            (Verify, 2),
            (Flush, 1),
            (SyncData, 1),
            (Reopen, 1),
            (Wb, 1),
        ],
        preload: 400,
        tail_struct: true,
        params: 0,
        huge: r.chance(1, 12),
    };
    match prop {
        "A01" => {}
        "A02" => {
            c.w = vec![(Put, 30), (Del, 30), (Iter, 25), (BPut, 3), (BDel, 3), (Get, 5), (Flush, 1), (Reopen, 1), (Clone, 1)];
        }
        "A03" => {
            c.w = vec![(BPut, 20), (BDel, 16), (BGet, 14), (Put, 8), (Del, 8), (Get, 4), (Verify, 3), (Iter, 2), (Flush, 1), (Reopen, 1)];
            c.ops = (20, 120);
        }
        "A04" => {
            c.w = vec![(Put, 30), (Del, 18), (Get, 8), (BPut, 4), (BDel, 2), (Reopen, 8), (DropDb, 2), (Flush, 2), (SyncAll, 1), (DbSync, 1), (Verify, 1), (Fill, 1), (Iter, 1), (Clone, 1)];
            c.maps = (1, 3);
        }
        "A05" => {
            c.dbs = (1, 2);
            c.maps = (2, 5);
            c.w.push((DbSync, 2));
            c.w.push((SyncAll, 2));
            c.w.push((Reopen, 2));
            c.w.push((DropDb, 1));
        }
        "A06" => {
            c.w = vec![(Put, 30), (Del, 20), (Get, 20), (Clone, 6), (Again, 5), (DropH, 5), (DropDb, 2), (BPut, 2), (BGet, 2), (Iter, 4), (Flush, 3), (SyncAll, 2), (DbSync, 2), (Reopen, 1), (Verify, 2)];
            c.maps = (1, 3);
        }
        "D01" => {
            c.w = vec![(Put, 34), (Del, 16), (Get, 4), (BPut, 3), (BDel, 1), (SyncAll, 7), (SyncData, 7), (DbSync, 6), (Flush, 3), (ProbeP, 9), (CrashP, 2), (Wb, 5), (Reopen, 1), (ReadBurst, 1), (Iter, 1), (Clone, 1)];
            c.maps = (1, 4);
            c.ops = (20, 140);
        }
        "D02" => {
            c.w = vec![(Put, 34), (Del, 16), (Get, 4), (BPut, 3), (BDel, 1), (Flush, 14), (SyncAll, 2), (DbSync, 2), (ProbeK, 10), (CrashK, 2), (Wb, 1), (Reopen, 2), (Iter, 1), (Clone, 1)];
            c.maps = (1, 3);
            c.ops = (20, 140);
        }
        "D03" => {
            c.maps = (1, 4);
            c.dbs = (1, 2);
            c.ops = (2, 16);
            c.w = vec![(Put, 10), (Get, 2), (SyncAll, 4), (ProbeK, 6), (ProbeP, 6), (Wb, 4), (Reopen, 1), (Flush, 2)];
            c.preload = 0;
            c.tail_struct = false;
            c.huge = false;
        }
        "D04" => {
            c.maps = (2, 4);
            c.dbs = (1, 2);
            c.w = vec![(Put, 40), (Del, 25), (BPut, 4), (BDel, 2), (Get, 3), (SyncAll, 3), (DbSync, 4), (Flush, 2), (Wb, 3), (Reopen, 1), (Iter, 1)];
            c.ops = (20, 120);
        }
        "D05" => {
            c.maps = (1, 3);
            c.w = vec![(Put, 20), (Del, 12), (ReadBurst, 20), (SyncAll, 2), (Flush, 2), (DbSync, 2), (Reopen, 5), (Clone, 2), (Again, 1), (DropH, 2), (Get, 5), (Iter, 4), (Fill, 3), (Check, 3)];
            // goes through all of the hash table
            if r.chance(1, 12) {
                c.w.push((Rate, 6));
            }
        }
        "F01" => {
            c.maps = (1, 2);
            c.w = vec![(Put, 34), (Del, 22), (Get, 10), (BPut, 4), (BDel, 2), (BGet, 2), (Iter, 2), (Flush, 3), (SyncAll, 3), (SyncData, 2), (DbSync, 2), (Reopen, 1), (Fill, 1), (Verify, 1), (ProbeK, 2), (ProbeP, 2)];
            c.params = 1;
            c.ops = (20, 160);
        }
        "F02" => {
            c.maps = (1, 2);
            c.w = vec![(Put, 34), (Del, 18), (Get, 4), (BPut, 3), (Flush, 8), (SyncAll, 8), (SyncData, 6), (DbSync, 4), (Verify, 4), (Iter, 2), (Clone, 1)];
            c.params = if r.chance(1, 3) { 1 } else { 0 };
            c.ops = (20, 140);
        }
        "F03" => {
            c.w = vec![(Put, 24), (Del, 12), (Get, 34), (BGet, 8), (Iter, 4), (Fill, 3), (Flush, 4), (SyncAll, 2), (Verify, 3), (BPut, 2), (ProbeK, 1), (ProbeP, 1)];
            c.params = 1;
            c.ops = (30, 200);
        }
        "F04" => {
            c.w.push((Fill, 2));
            c.w.push((DbSync, 2));
            c.w.push((SyncAll, 3));
            c.w.push((Reopen, 3));
            c.params = if r.chance(1, 2) { 1 } else { 0 };
        }
        "F05" => {
            c.maps = (1, 4);
            c.dbs = (1, 2);
            c.w = vec![(Put, 20), (Del, 8), (Reopen, 14), (Get, 4), (SyncAll, 2), (Flush, 2), (Verify, 4), (DbSync, 1), (ProbeK, 1), (ProbeP, 1)];
            c.ops = (10, 60);
        }
        "F06" => {
            c.maps = (2, 4);
            c.dbs = (1, 2);
            c.w = vec![(Put, 40), (Del, 25), (BPut, 4), (BDel, 2), (Get, 6), (SyncAll, 3), (DbSync, 4), (Flush, 4), (ProbeK, 2), (ProbeP, 2), (Iter, 1), (Verify, 3)];
            c.params = 1;
            c.ops = (20, 160);
        }
        "S01" => {
            c.w = vec![(Put, 40), (Del, 40), (BPut, 3), (BDel, 3), (Check, 12), (Flush, 1), (Reopen, 1), (Get, 4)];
            c.pool = vec![8, 20, 60, 200, 500];
            c.ops = (60, 400);
            if r.chance(1, 40) {
                c.w.push((Rate, 4));
            }
        }
        "S02" => {
            c.w = vec![(Put, 44), (Del, 30), (BPut, 3), (BDel, 3), (SaveAudit, 6), (Get, 4), (Reopen, 1), (Verify, 1)];
            c.ops = (60, 300);
        }
        "C01" => {
            c.maps = (1, 3);
            c.w.push((Flush, 2));
            c.w.push((SyncAll, 2));
            c.w.push((Reopen, 2));
            c.w.push((Fill, 2));
            c.huge = r.chance(1, 4);
        }
        "C02" => {
            c.maps = (1, 3);
            c.w = vec![(Put, 20), (Del, 8), (WrongType, 6), (BadSig, 6), (Get, 2), (SyncAll, 1), (Flush, 1), (Reopen, 1)];
            c.ops = (10, 60);
            c.huge = false;
        }
        "C03" => {
            c.maps = (1, 3);
            c.w = vec![(Put, 40), (Del, 24), (BPut, 4), (BDel, 3), (SaveAudit, 8), (Reopen, 2), (DbSync, 1)];
        }
        "C04" => {
            c.w = vec![(Put, 34), (Get, 24), (Del, 22), (BPut, 6), (BGet, 6), (BDel, 6), (Flush, 1), (SyncAll, 1), (SyncData, 1), (Reopen, 1), (Clone, 2), (Again, 2), (DropH, 1), (Verify, 1)];
            c.maps = (1, 5);
            c.dbs = (1, 2);
        }
        _ => panic!("unknown property {}", prop),
    }
    c
}

pub const ALL: &[&str] = &[
    "A01", "A02", "A03", "A04", "A05", "A06", "D01", "D02", "D03", "D04", "D05", "F01", "F02", "F03", "F04", "F05",
    "F06", "S01", "S02", "S03", "C01", "C02", "C03", "C04",
];

/// the program of a seed without its faults
pub fn skeleton(prop: &str, seed: u64, small: bool, pools: &Pools) -> Prog {
    let tagged = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let mut r = Rng::new(mix(seed, tagged));
    if prop == "S03" {
        return churn(&mut r, small, pools);
    }
    let c = cfg(prop, &mut r);
    let mut p = Prog {
        dbs: r.range(c.dbs.0, c.dbs.1) as usize,
        mem: prop == "C04",
        ..Default::default()
    };
    let np = 1 + r.below(3);
    for _ in 0..np {
        p.params.push(params(&mut r, c.params));
    }
    if prop == "C01" {
        // extremes on purpose
        p.twin = Some(params(&mut r, *[0u8, 1, 2].get(seed as usize % 3).unwrap()));
    }
    // a lookup that finds nothing flushes the index and forgets its cached nodes: without such
    // lookups stale memory and unwritten nodes live longer
    let often = matches!(prop, "A04" | "A05" | "A06" | "D01" | "D02" | "D04" | "F02" | "F06" | "S01" | "S02" | "C03");
    p.nomiss = if often { r.chance(1, 4) } else { r.chance(1, 10) };
    let mut nm = r.range(c.maps.0, c.maps.1) as usize;
    if c.maps.1 > 2 && r.chance(1, 40) {
        nm += *r.pick(&[5, 5, 5, 14, 30]);
    }
    let one_kt = *r.pick(&[Kt::S, Kt::I, Kt::B]);
    let mixed = r.chance(2, 3);
    let mut names: BTreeSet<(usize, String)> = BTreeSet::new();
    for _ in 0..nm {
        let kt = if mixed { *r.pick(&[Kt::S, Kt::I, Kt::B]) } else { one_kt };
        let db = r.below(p.dbs as u64) as usize;
        let mut name = r.pick(NAMES).to_string();
        while !names.insert((db, name.clone())) {
            name.push(*r.pick(&['0', '1', 'x', '.']));
            name.push('e');
        }
        p.maps.push(MapSpec { db, name, kt });
    }
    let mut g = G {
        pools,
        small,
        nk: [0; 3],
        present: vec![BTreeSet::new(); nm],
        twins: Default::default(),
        owner: vec![BTreeMap::new(); nm],
        handles: vec![0; nm],
        db_open: vec![false; p.dbs],
        map_open: vec![false; nm],
        map_in_db: vec![false; nm],
        vmode: 0,
        kmode: 0,
        cursor: 0,
        fills: 0,
        fat: 2,
        far: false,
        alike: vec![],
        tag: 0,
        phase: 0,
        r,
        p,
    };
    if matches!(prop, "A01" | "A03" | "A04" | "C03" | "C04" | "S02") && !crate::TINY && g.r.chance(1, 10) {
        g.fat = 3;
    }
    // pieces and nodes beyond 4 GiB
    g.far = !crate::TINY && g.r.chance(1, 25);
    // values that differ in a single byte, or not at all
    if g.r.chance(1, 12) {
        for _ in 0..1 + g.r.below(3) {
            let n = *g.r.pick(&[1, 2, 8, 9, 16, 20, 33, 64, 100, 128, 257, 300, 1000, 1100, 4097, 5000, 70_000]);
            g.alike.push(n);
        }
    }
    // a crowd of keys makes deep trees; the default node holds 64
    let crowd = c.preload > 0 && c.tail_struct && g.r.chance(1, 150);
    let nk = if crowd { 1000 + g.r.below(2500) as usize } else { *g.r.pick(&c.pool) as usize };
    keys(&mut g, nk);
    g.vmode = match (c.huge, crowd) {
        (true, false) => *g.r.pick(&[3, 3, 5]),
        (_, true) => *g.r.pick(&[0, 1, 4]),
        _ => *g.r.pick(&[0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 5]),
    };
    g.kmode = g.r.below(5);
    let lazily = g.r.chance(1, 4);
    if lazily {
        for d in 0..g.p.dbs {
            g.op(OpKind::Open(d));
            g.db_open[d] = true;
        }
        g.map(0);
    } else {
        g.open_all();
    }
    if crowd || g.r.below(1000) < c.preload {
        for m in 0..nm.min(if crowd { 1 } else { 2 }) {
            if g.map_open[m] {
                let old = g.kmode;
                g.kmode = *g.r.pick(&[0, 2, 3]);
                let n = (g.nk[g.p.maps[m].kt.ix()] * 4 / 5).max(1);
                if n > 100 && g.vmode == 3 {
                    g.vmode = 1;
                }
                let chunk = 40.max(n / (1 + g.r.below(3) as usize));
                let mut left = n;
                while left > 0 {
                    let k = left.min(chunk);
                    g.bput(m, k, false);
                    left -= k;
                }
                g.kmode = old;
            }
        }
    }
    // swarm: some operations are frequent, some rare, some absent
    let mut w: Ws = c.w.clone();
    for x in w.iter_mut() {
        x.1 = x.1 * *g.r.pick(&[0u64, 2, 4, 4, 4, 12]) / 4;
    }
    if w.iter().map(|x| x.1).sum::<u64>() == 0 {
        w = c.w.clone();
    }
    // the operations the property is about stay
    let must: &[W] = match prop {
        "A02" => &[W::Iter, W::Put],
        "A03" => &[W::BPut, W::BGet, W::BDel],
        "A04" => &[W::Reopen, W::Put],
        "A06" => &[W::Clone, W::Put],
        "D01" => &[W::SyncAll, W::SyncData, W::ProbeP, W::Put],
        "D02" => &[W::Flush, W::ProbeK, W::Put],
        "D03" => &[W::ProbeK, W::ProbeP],
        "D05" => &[W::ReadBurst],
        "S01" => &[W::Check],
        "S02" | "C03" => &[W::SaveAudit, W::Put],
        "C02" => &[W::WrongType, W::BadSig],
        "F05" => &[W::Reopen],
        _ => &[W::Put],
    };
    for x in w.iter_mut() {
        for y in must {
            if x.0 as u8 == *y as u8 && x.1 == 0 {
                x.1 = c.w.iter().find(|z| z.0 as u8 == *y as u8).unwrap().1;
            }
        }
    }
    let ws: Vec<u64> = w.iter().map(|x| x.1).collect();
    let n = g.r.range(c.ops.0, c.ops.1);
    let mut done = 0;
    let phase_len = 10 + g.r.below(60);
    let mut wsp = ws.clone();
    while done < n {
        if done % phase_len == 0 {
            g.phase = g.r.below(9);
            wsp = ws.clone();
            for (i, x) in w.iter().enumerate() {
                match (g.phase / 3, x.0) {
                    (0, W::Put) | (0, W::BPut) => wsp[i] *= 4,
                    (1, W::Del) | (1, W::BDel) => wsp[i] *= 6,
                    _ => (),
                }
            }
            if g.r.chance(1, 3) {
                g.kmode = g.r.below(5);
            }
        }
        let i = g.r.weighted(&wsp);
        g.step(w[i].0);
        done += 1;
        // D-properties want a probe right where the promise begins
        if prop == "D01" && matches!(w[i].0, W::SyncAll | W::SyncData | W::DbSync) && g.r.chance(1, 2) {
            g.step(W::ProbeP);
        }
        if prop == "D02" && matches!(w[i].0, W::Flush) && g.r.chance(1, 2) {
            g.step(W::ProbeK);
        }
        if prop == "F02" && matches!(w[i].0, W::SyncAll | W::SyncData | W::DbSync | W::Flush) {
            after_save(&mut g);
        }
        if prop == "F05" && g.r.chance(1, 10) {
            g.step(W::Reopen);
        }
    }
    // closing words
    g.op(OpKind::Heal);
    g.open_all();
    for m in 0..nm {
        if c.tail_struct {
            g.op(OpKind::Check { m });
        }
        g.op(OpKind::Verify { m });
    }
    if matches!(prop, "D01" | "F02") {
        for m in 0..nm {
            g.save(m);
        }
        g.step(W::ProbeP);
    }
    if matches!(prop, "D02") {
        for m in 0..nm {
            g.op(OpKind::Flush { m, h: 0 });
        }
        g.step(W::ProbeK);
    }
    for d in 0..g.p.dbs {
        g.close(d);
    }
    if c.tail_struct {
        for m in 0..nm {
            g.op(OpKind::Audit { m });
        }
    }
    g.open_all();
    for m in 0..nm {
        g.op(OpKind::Verify { m });
    }
    g.p
}

fn after_save(g: &mut G) {
    // nothing may be lost in memory, and the next save has to make up for the failed one
    if g.r.chance(1, 2) {
        if let Some(m) = g.a_map() {
            g.op(OpKind::Verify { m });
        }
    }
    if g.r.chance(1, 2) {
        g.op(OpKind::Heal);
        if let Some(m) = g.a_map() {
            if g.r.chance(1, 2) {
                g.save(m);
                g.step(W::ProbeP);
            } else {
                g.op(OpKind::Flush { m, h: 0 });
                g.op(OpKind::Probe { power: None });
            }
        }
    }
}

fn keys(g: &mut G, nk: usize) {
    for kt in [Kt::S, Kt::I, Kt::B] {
        if !g.p.maps.iter().any(|m| m.kt == kt) {
            continue;
        }
        let mut v: Vec<KeySpec> = vec![];
        let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
        let style = g.r.below(4);
        let fat = kt != Kt::I && nk <= 200 && g.r.chance(1, 8);
        let twin = kt != Kt::I && !fat && nk <= 200 && g.r.chance(1, 8);
        let near = if nk > 800 { g.pools.crowd(kt) } else { &g.pools.near[kt.ix()][..] };
        let coll = &g.pools.coll[kt.ix()];
        let misc = &g.pools.misc[kt.ix()];
        let start = g.r.below(near.len() as u64) as usize;
        let mut i = 0;
        while v.len() < nk {
            i += 1;
            let add: Vec<KeySpec> = match (style, g.r.below(10)) {
                // keys that cross the chunks of the buffer
                (_, 0..=3) if fat => vec![KeySpec::Gen(
                    match g.r.below(20) {
                        0 if !crate::TINY => 125_000 + g.r.below(20_000) as u32,
                        0..=4 => 3000 + g.r.below(6000) as u32,
                        _ => 200 + g.r.below(1500) as u32,
                    },
                    1000 + i as u32,
                )],
                // keys that differ in a single byte, short ones begin long ones
                (_, 0..=3) if twin => {
                    let n = *g.r.pick(&[9u32, 17, 40, 70, 140, 257, 300, 1030, 4100]);
                    vec![KeySpec::Gen(n, ALIKE | 2 << 8 | g.r.below(VARIANTS as u64) as u32)]
                }
                (0, _) => vec![near[(start + i) % near.len()].clone()],
                (_, 0..=4) => vec![near[(start + i) % near.len()].clone()],
                (1, _) | (_, 5..=6) => {
                    g.r.pick(coll).clone()
                }
                _ => vec![g.r.pick(misc).clone()],
            };
            for k in add {
                if seen.insert(k.bytes()) {
                    v.push(k);
                }
            }
            if i > nk * 20 {
                break;
            }
        }
        // ascending by index in half of the runs, so that cursors walk in key order
        if g.r.chance(1, 2) {
            v.sort_by_key(|k| k.bytes());
        }
        let mut slots: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        for (i, k) in v.iter().enumerate() {
            slots.entry(hash_of(kt, &k.bytes()) % HT).or_default().push(i);
        }
        g.twins[kt.ix()] = slots.into_values().filter(|x| x.len() > 1).collect();
        g.nk[kt.ix()] = v.len();
        g.p.keys[kt.ix()] = v;
    }
}

/// S03: the same cycle again and again must not make the files grow without bound
fn churn(r: &mut Rng, small: bool, pools: &Pools) -> Prog {
    let kt = *r.pick(&[Kt::S, Kt::I, Kt::B]);
    let mut p = Prog { dbs: 1, ..Default::default() };
    p.params.push(params(r, 0));
    p.maps.push(MapSpec { db: 0, name: "m".into(), kt });
    let mut g = G {
        pools,
        small,
        nk: [0; 3],
        present: vec![BTreeSet::new(); 1],
        twins: Default::default(),
        owner: vec![BTreeMap::new(); 1],
        handles: vec![0; 1],
        db_open: vec![false],
        map_open: vec![false],
        map_in_db: vec![false],
        vmode: 0,
        kmode: 0,
        cursor: 0,
        fills: 0,
        fat: 2,
        far: false,
        alike: vec![],
        tag: 0,
        phase: 0,
        r: r.clone(),
        p,
    };
    let nk = *g.r.pick(&[2u64, 5, 20, 60, 150]) as usize;
    keys(&mut g, nk);
    // the keys below are thinned out
    g.twins = Default::default();
    g.open_all();
    // keys of large pieces: few
    let is_big = |k: &KeySpec| k.bytes().len() > 850;
    let v: &mut Vec<KeySpec> = &mut g.p.keys[kt.ix()];
    let mut left = 3;
    v.retain(|k| {
        let big = is_big(k);
        if big && left > 0 {
            left -= 1;
            return true;
        }
        !big
    });
    let big = v.iter().any(is_big);
    let nk = v.len();
    g.nk[kt.ix()] = nk;
    let large = big || g.r.chance(1, 3);
    // one cycle, written once and repeated as is; its first part empties and refills
    let mut cyc: Vec<(usize, Option<u32>)> = vec![];
    let len = 4 + g.r.below(3 * nk as u64 + 4);
    g.vmode = if large { 2 } else { 1 };
    // few different large sizes, so that the free large pieces soon fit all of them
    let palette: Vec<u32> = (0..2 + g.r.below(3)).map(|_| g.vlen()).collect();
    let vl = |g: &mut G| -> u32 {
        if large && g.r.chance(1, 2) {
            return *g.r.pick(&palette);
        }
        loop {
            let l = g.vlen();
            if l < 880 {
                return l;
            }
        }
    };
    for _ in 0..len {
        let k = g.r.below(nk as u64) as usize;
        if g.r.chance(2, 5) {
            cyc.push((k, None));
        } else {
            let l = vl(&mut g);
            cyc.push((k, Some(l)));
        }
    }
    // leave nothing, or a fixed content, behind
    let empty = g.r.chance(2, 3);
    for k in 0..nk {
        if empty {
            cyc.push((k, None));
        } else {
            let l = 5 + (k as u32 * 37) % 200;
            cyc.push((k, None));
            cyc.push((k, Some(l)));
        }
    }
    // large pieces are taken first fit, without splitting: it takes longer until all of them fit
    let (warm, cycles) = match (nk > 60, large) {
        (true, _) => (10, 30),
        (false, false) => (6, 24),
        (false, true) => (40, 60),
    };
    let reopen = g.r.below(4);
    for c in 0..cycles {
        for (k, v) in cyc.clone() {
            match v {
                Some(len) => {
                    g.tag += 1;
                    let v = Val { len, tag: g.tag };
                    g.op(OpKind::Put { m: 0, h: 0, k, v, s: false });
                }
                None => g.op(OpKind::Del { m: 0, h: 0, k, s: false }),
            }
        }
        match reopen {
            0 => {
                g.close(0);
                g.open_all();
            }
            _ => g.op(OpKind::Flush { m: 0, h: 0 }),
        }
        if c + 1 == warm {
            g.op(OpKind::Mark { m: 0, id: 0 });
        }
        if c + 1 > warm {
            // pieces of fixed classes are found again exactly, large ones first fit; the shape of
            // the tree at the start of a cycle need not repeat at once
            let some = if std::env::var("S0").is_ok() { 0 } else { (cycles - warm) / 2 };
            let slack = if large { some << 16 | some } else { some };
            g.op(OpKind::NoGrow { m: 0, id: 0, slack });
        }
    }
    g.op(OpKind::Verify { m: 0 });
    g.p
}

/// calls made by the operations of a fault-free run: per operation and class
pub type Calls = Vec<[u32; 5]>;

/// does this run get harmless disturbances (the first coin of `place`)?
fn wants_noise(prop: &str, seed: u64) -> bool {
    place_rng(prop, seed).chance(1, 4)
}
fn place_rng(prop: &str, seed: u64) -> Rng {
    Rng::new(mix(seed, 0xfau64 + prop.bytes().map(|b| b as u64).sum::<u64>() * 7919))
}
pub fn needs_dry_run(prop: &str, seed: u64) -> bool {
    wants_noise(prop, seed) || always_dry_run(prop)
}
fn always_dry_run(prop: &str) -> bool {
    matches!(prop, "D01" | "D02" | "D03" | "D04" | "F01" | "F02" | "F03" | "F04" | "F05" | "F06")
}

fn soft(r: &mut Rng) -> FaultKind {
    match r.below(3) {
        0 => FaultKind::Eintr,
        1 => FaultKind::Short(1 + r.below(999) as u32),
        _ => FaultKind::Wb(r.next() >> 40),
    }
}
fn class_of(calls: &[u32; 5], r: &mut Rng, only: u8) -> Option<(u8, u32)> {
    let w: Vec<u64> = (0..5)
        .map(|i| if only & (1 << i) != 0 { (calls[i] as u64).min(40) } else { 0 })
        .collect();
    if w.iter().sum::<u64>() == 0 {
        return None;
    }
    let c = r.weighted(&w);
    let at = r.below(calls[c] as u64) as u32;
    Some((1 << c, at))
}
fn add_soft(op: &mut Op, calls: &[u32; 5], r: &mut Rng) {
    let k = soft(r);
    let only = match k {
        FaultKind::Short(_) => C_READ | C_WRITE,
        _ => C_ANY,
    };
    if let Some((class, at)) = class_of(calls, r, only) {
        op.faults.push(Fault { kind: k, class, at });
    }
}

/// the lookups (with disk reads) of keys that are there, but whose slot of the hash table another key has
fn displaced_lookups(p: &Prog, calls: &Calls) -> Vec<usize> {
    let slot: Vec<Vec<u64>> =
        [Kt::S, Kt::I, Kt::B].iter().map(|kt| p.keys[kt.ix()].iter().map(|k| hash_of(*kt, &k.bytes()) % HT).collect()).collect();
    let mut own: Vec<BTreeMap<u64, usize>> = vec![BTreeMap::new(); p.maps.len()];
    let mut there: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); p.maps.len()];
    let mut l = vec![];
    for (i, op) in p.ops.iter().enumerate() {
        match &op.kind {
            OpKind::Put { m, k, .. } => {
                if there[*m].insert(*k) {
                    own[*m].insert(slot[p.maps[*m].kt.ix()][*k], *k);
                }
            }
            OpKind::BPut { m, kv, .. } => {
                for (k, _) in kv {
                    if there[*m].insert(*k) {
                        own[*m].insert(slot[p.maps[*m].kt.ix()][*k], *k);
                    }
                }
            }
            // the slot is cleared, whosever it is
            OpKind::Del { m, k, .. } => {
                if there[*m].remove(k) {
                    own[*m].remove(&slot[p.maps[*m].kt.ix()][*k]);
                }
            }
            OpKind::BDel { m, ks, .. } => {
                for k in ks {
                    if there[*m].remove(k) {
                        own[*m].remove(&slot[p.maps[*m].kt.ix()][*k]);
                    }
                }
            }
            OpKind::Get { m, k, .. } if calls[i][0] > 0 && there[*m].contains(k) => {
                if own[*m].get(&slot[p.maps[*m].kt.ix()][*k]) != Some(k) {
                    l.push(i);
                }
            }
            _ => (),
        }
    }
    l
}
pub fn place(prop: &str, p: &mut Prog, calls: &Calls, seed: u64) {
    let mut r = place_rng(prop, seed);
    let hot: Vec<usize> = (0..p.ops.len()).filter(|i| calls[*i].iter().sum::<u32>() > 0).collect();
    if hot.is_empty() {
        return;
    }
    // harmless disturbances in some of the runs of every property
    let noise = r.chance(1, 4);
    debug_assert_eq!(noise, wants_noise(prop, seed));
    if prop == "F04" || (noise && !matches!(prop, "F02" | "F05")) {
        let n = if prop == "F04" { 1 + r.below(30) } else { 1 + r.below(4) };
        for _ in 0..n {
            let i = *r.pick(&hot);
            if p.ops[i].faults.len() < 4 {
                add_soft(&mut p.ops[i], &calls[i], &mut r);
            }
        }
    }
    let power = |r: &mut Rng| if r.chance(2, 3) { Some(r.next() >> 40) } else { None };
    match prop {
        "D01" | "D02" | "D03" | "D04" => {
            let n = match prop {
                "D03" => 6,
                "D04" => 10,
                _ => 4,
            };
            for _ in 0..n {
                let i = *r.pick(&hot);
                if p.ops[i].faults.iter().any(|f| f.kind == FaultKind::Kill) {
                    continue;
                }
                let creating = matches!(p.ops[i].kind, OpKind::Map { .. } | OpKind::Open(_));
                if prop == "D03" && !creating && r.chance(1, 2) {
                    continue;
                }
                let (class, at) = match class_of(&calls[i], &mut r, C_ANY) {
                    Some(x) => x,
                    None => continue,
                };
                p.ops[i].faults.push(Fault { kind: FaultKind::Kill, class, at });
                let pw = match prop {
                    "D01" => Some(r.next() >> 40),
                    "D02" => None,
                    _ => power(&mut r),
                };
                p.ops[i].crash = Some(CrashAs { real: false, power: pw });
            }
            if prop == "D03" {
                // one crash is for real: life goes on from what it left
                if r.chance(1, 3) {
                    let c: Vec<usize> = (0..p.ops.len())
                        .filter(|i| p.ops[*i].crash.is_some() && matches!(p.ops[*i].kind, OpKind::Map { .. }))
                        .collect();
                    if let Some(i) = c.first() {
                        p.ops[*i].crash.as_mut().unwrap().real = true;
                        // afterwards everything is opened again
                        let mut re: Vec<Op> = (0..p.dbs).map(|d| Op::new(OpKind::Open(d))).collect();
                        for m in 0..p.maps.len() {
                            re.push(Op::new(OpKind::Map { m, p: 0 }));
                            re.push(Op::new(OpKind::Verify { m }));
                        }
                        p.ops.splice(i + 1..i + 1, re);
                    }
                }
            }
        }
        "F01" | "F06" => {
            let n = 1 + r.below(3);
            let cand: Vec<usize> = if prop == "F06" {
                hot.iter()
                    .copied()
                    .filter(|i| matches!(p.ops[*i].kind, OpKind::Put { .. } | OpKind::Del { .. } | OpKind::BPut { .. } | OpKind::BDel { .. }))
                    .collect()
            } else {
                hot.clone()
            };
            if cand.is_empty() {
                return;
            }
            let mut at_ops = vec![];
            for _ in 0..n {
                let i = *r.pick(&cand);
                let only = C_READ | C_WRITE | C_SYNC | C_TRUNC | C_OPEN;
                if let Some((class, at)) = class_of(&calls[i], &mut r, only) {
                    let kind = match class {
                        C_READ => *r.pick(&[FaultKind::Eio, FaultKind::Eio, FaultKind::Stuck]),
                        C_OPEN => *r.pick(&[FaultKind::Emfile, FaultKind::Eacces, FaultKind::Eio]),
                        _ => *r.pick(&[FaultKind::Eio, FaultKind::Enospc, FaultKind::Stuck, FaultKind::Full]),
                    };
                    p.ops[i].faults.push(Fault { kind, class, at });
                    at_ops.push(i);
                }
            }
            // soon after a failed change another map is saved, and its files looked at
            if prop == "F06" {
                let on: Vec<(usize, usize)> = at_ops.iter().filter_map(|i| Some((*i, crate::strip::on_map(&p.ops[*i].kind)?))).collect();
                let mut ins: Vec<(usize, [Op; 2])> = vec![];
                for (i, m) in on {
                    let x = r.below(p.maps.len() as u64) as usize;
                    if x == m || r.chance(1, 3) {
                        continue;
                    }
                    let save = match r.below(4) {
                        0 => OpKind::SyncAll { m: x, h: 0 },
                        1 => OpKind::SyncData { m: x, h: 0 },
                        _ => OpKind::Flush { m: x, h: 0 },
                    };
                    let probe = OpKind::Probe {
                        power: if matches!(save, OpKind::Flush { .. }) { None } else { power(&mut r) },
                    };
                    ins.push((i + 1 + r.below(4) as usize, [Op::new(save), Op::new(probe)]));
                }
                ins.sort_by_key(|x| x.0);
                for (j, ops) in ins.into_iter().rev() {
                    let j = j.min(p.ops.len());
                    p.ops.splice(j..j, ops);
                    for a in at_ops.iter_mut().filter(|a| **a >= j) {
                        *a += 2;
                    }
                }
            }
            // answers of failing lookups; these leave the maps as they are
            if prop == "F01" && r.chance(1, 3) {
                let reads: Vec<usize> = hot
                    .iter()
                    .copied()
                    .filter(|i| matches!(p.ops[*i].kind, OpKind::Get { .. } | OpKind::BGet { .. }) && calls[*i][0] > 0)
                    .collect();
                let far = displaced_lookups(p, calls);
                for _ in 0..if reads.is_empty() { 0 } else { 1 + r.below(8) } {
                    let l = if far.is_empty() || r.chance(1, 2) { &reads } else { &far };
                    let i = *r.pick(l);
                    if let Some((class, at)) = class_of(&calls[i], &mut r, C_READ) {
                        p.ops[i].faults.push(Fault { kind: FaultKind::Eio, class, at });
                    }
                }
            }
            heal_after(p, at_ops, &mut r);
        }
        "F02" => {
            let cand: Vec<usize> = hot
                .iter()
                .copied()
                .filter(|i| {
                    matches!(
                        p.ops[*i].kind,
                        OpKind::Flush { .. } | OpKind::SyncAll { .. } | OpKind::SyncData { .. } | OpKind::DbSync { .. }
                    )
                })
                .collect();
            if cand.is_empty() {
                return;
            }
            let mut at_ops = vec![];
            for _ in 0..1 + r.below(6) {
                let i = *r.pick(&cand);
                let only = if r.chance(1, 4) { C_READ } else { C_WRITE | C_SYNC };
                if let Some((class, at)) = class_of(&calls[i], &mut r, only) {
                    let kind = match class {
                        C_READ => *r.pick(&[FaultKind::Eio, FaultKind::Eio, FaultKind::Stuck]),
                        _ => *r.pick(&[FaultKind::Eio, FaultKind::Eio, FaultKind::Enospc, FaultKind::Stuck, FaultKind::Full]),
                    };
                    p.ops[i].faults.push(Fault { kind, class, at });
                    if r.chance(1, 4) {
                        p.ops[i].faults.push(Fault { kind: FaultKind::Short(500), class: C_WRITE, at: at.saturating_sub(1) });
                    }
                    at_ops.push(i);
                }
            }
            heal_after(p, at_ops, &mut r);
        }
        "F03" => {
            let cand: Vec<usize> = hot
                .iter()
                .copied()
                .filter(|i| {
                    matches!(p.ops[*i].kind, OpKind::Get { .. } | OpKind::BGet { .. } | OpKind::Fill { .. } | OpKind::Iter { .. })
                        && calls[*i][0] + calls[*i][1] > 0
                })
                .collect();
            if cand.is_empty() {
                return;
            }
            let far = displaced_lookups(p, calls);
            let mut ins = vec![];
            for _ in 0..1 + r.below(8) {
                let l = if far.is_empty() || r.chance(2, 3) { &cand } else { &far };
                let i = *r.pick(l);
                if let Some((class, at)) = class_of(&calls[i], &mut r, C_READ | C_WRITE) {
                    let kind = if class == C_READ {
                        *r.pick(&[FaultKind::Eio, FaultKind::Eio, FaultKind::Stuck])
                    } else {
                        *r.pick(&[FaultKind::Eio, FaultKind::Enospc])
                    };
                    p.ops[i].faults.push(Fault { kind, class, at });
                    ins.push(i);
                }
            }
            // the same read again, once the disk is well
            ins.sort_unstable();
            ins.dedup();
            for i in ins.into_iter().rev() {
                let mut again = p.ops[i].clone();
                again.faults.clear();
                p.ops.insert(i + 1, again);
                p.ops.insert(i + 1, Op::new(OpKind::Heal));
            }
        }
        "F05" => {
            let cand: Vec<usize> = hot
                .iter()
                .copied()
                .filter(|i| matches!(p.ops[*i].kind, OpKind::Map { .. } | OpKind::Open(_)))
                .collect();
            if cand.is_empty() {
                return;
            }
            let mut ins = vec![];
            for _ in 0..1 + r.below(5) {
                let i = *r.pick(&cand);
                if let Some((class, at)) = class_of(&calls[i], &mut r, C_ANY) {
                    let kind = match class {
                        C_OPEN => *r.pick(&[FaultKind::Emfile, FaultKind::Eacces, FaultKind::Eio, FaultKind::Enospc]),
                        C_READ => FaultKind::Eio,
                        _ => *r.pick(&[FaultKind::Eio, FaultKind::Enospc]),
                    };
                    p.ops[i].faults.push(Fault { kind, class, at });
                    ins.push(i);
                }
            }
            ins.sort_unstable();
            ins.dedup();
            for i in ins.into_iter().rev() {
                let again = Op::new(p.ops[i].kind.clone());
                p.ops.insert(i + 1, again);
                p.ops.insert(i + 1, Op::new(OpKind::Heal));
            }
        }
        _ => {}
    }
}

fn heal_after(p: &mut Prog, mut at: Vec<usize>, r: &mut Rng) {
    at.sort_unstable();
    at.dedup();
    for i in at.into_iter().rev() {
        let j = (i + 1 + r.below(4) as usize).min(p.ops.len());
        p.ops.insert(j, Op::new(OpKind::Heal));
    }
}

/// runs of the quick tier
pub fn budget(prop: &str) -> u64 {
    match prop {
        "A01" => 16000,
        "A02" => 16000,
        "A03" => 16000,
        "A04" => 6000,
        "A05" => 12000,
        "A06" => 16000,
        "C01" => 2500,
        "C02" => 24000,
        "C03" => 14000,
        "C04" => 14000,
        "D01" => 4500,
        "D02" => 7000,
        "D03" => 40000,
        "D04" => 12000,
        "D05" => 5000,
        "F01" => 16000,
        "F02" => 6500,
        "F03" => 12000,
        "F04" => 5000,
        "F05" => 16000,
        "F06" => 12000,
        "S01" => 10000,
        "S02" => 12000,
        "S03" => 2000,
        _ => 2000,
    }
}

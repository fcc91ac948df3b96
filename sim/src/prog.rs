//! A run of the simulator is a program: a text that says which maps exist, which operations are
//! made on them in which order, and which faults strike which system call of which operation.
//! Programs are generated from a seed before anything runs, and executing one consults no
//! randomness, so the text itself is the replay file and minimising is deleting lines.
use crate::disk::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kt {
    S,
    I,
    B,
}
impl Kt {
    pub fn ch(self) -> char {
        match self {
            Kt::S => 'S',
            Kt::I => 'I',
            Kt::B => 'B',
        }
    }
    pub fn of(c: &str) -> Option<Kt> {
        match c {
            "S" => Some(Kt::S),
            "I" => Some(Kt::I),
            "B" => Some(Kt::B),
            _ => None,
        }
    }
    pub fn ix(self) -> usize {
        self as usize
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Buf {
    Auto,
    PerMille(u16),
    /// in chunks (of 128 KiB, or of 512 bytes in the variant with small ones)
    Size(u32),
    /// in bytes
    Bytes(u32),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Params {
    pub default: bool,
    pub val: Buf,
    pub key: Buf,
    pub idx: Buf,
    pub htx: Buf,
}
pub const DEFAULT_PARAMS: Params = Params {
    default: true,
    val: Buf::Auto,
    key: Buf::PerMille(1000),
    idx: Buf::PerMille(1000),
    htx: Buf::PerMille(1000),
};

#[derive(Clone, PartialEq, Debug)]
pub struct MapSpec {
    pub db: usize,
    pub name: String,
    pub kt: Kt,
}

#[derive(Clone, PartialEq, Debug)]
pub enum KeySpec {
    Hex(Vec<u8>),
    /// len, seed: pseudo random ASCII, or one of a family, see `alike`
    Gen(u32, u32),
}

/// Marks seeds and tags of families: bits 8 to 15 are the family, 0 to 7 the variant.
pub const ALIKE: u32 = 1 << 30;
pub const VARIANTS: u32 = 20;
/// Bytes that are nearly those of the others of the family: of the same length they differ in one place or by a swap,
/// a shorter one is a prefix of a longer one.
fn alike(len: usize, tag: u32) -> Vec<u8> {
    let mut r = Rng::new(0x616c_696b_6500 + (tag >> 8 & 0xff) as u64);
    let mut v: Vec<u8> = (0..len).map(|_| b'a' + r.below(26) as u8).collect();
    let n = len;
    let var = (tag & 0xff) % VARIANTS;
    let flip = [n, 0, n.wrapping_sub(1), n / 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 255, 256, 1023, 4096];
    match flip.get(var as usize) {
        Some(i) if *i < n => v[*i] = if v[*i] == b'a' { b'b' } else { b'a' },
        Some(_) => (),
        None if n > 1 => match var {
            17 => v.swap(0, n - 1),
            18 => v.swap(0, 1),
            _ => v.reverse(),
        },
        None => (),
    }
    v
}
impl KeySpec {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            KeySpec::Hex(b) => b.clone(),
            KeySpec::Gen(len, seed) if seed & ALIKE != 0 => alike(*len as usize, *seed),
            KeySpec::Gen(len, seed) => {
                let mut r = Rng::new(0x6b65_7900_0000 + *seed as u64);
                (0..*len).map(|_| b'a' + r.below(26) as u8).collect()
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Val {
    pub len: u32,
    pub tag: u32,
}
impl Val {
    /// tag % 4: 0 ASCII, 1 arbitrary bytes, 2 UTF-8 multi byte, 3 mostly zeros and 0xff
    pub fn bytes(&self) -> Vec<u8> {
        if self.tag & ALIKE != 0 {
            return alike(self.len as usize, self.tag);
        }
        let mut r = Rng::new(0x76616c00 ^ ((self.tag as u64) << 32) ^ self.len as u64);
        let n = self.len as usize;
        match self.tag % 4 {
            0 => (0..n).map(|_| b' ' + r.below(95) as u8).collect(),
            1 => {
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
                v.truncate(n);
                v
            }
            2 => {
                let mut s = String::new();
                while s.len() < n {
                    let c = *r.pick(&['é', 'ß', '漢', 'a', '😀', 'z', '\u{0}']);
                    if s.len() + c.len_utf8() > n {
                        s.push('x');
                    } else {
                        s.push(c);
                    }
                }
                s.into_bytes()
            }
            _ => (0..n)
                .map(|_| if r.chance(1, 3) { 0xff } else { 0 })
                .collect(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum OpKind {
    Open(usize),
    /// drop the FileDb and every map handle of it
    Close(usize),
    /// drop the FileDb only, map handles live on
    DropDb(usize),
    /// get a map handle with parameter set p (creates the map if needed)
    Map { m: usize, p: usize },
    /// clone a handle
    CloneH { m: usize },
    /// ask the FileDb again for the same map
    Again { m: usize, p: usize },
    /// drop the newest extra handle
    DropH { m: usize },
    Put { m: usize, h: u8, k: usize, v: Val, s: bool },
    Get { m: usize, h: u8, k: usize, s: bool },
    Del { m: usize, h: u8, k: usize, s: bool },
    BPut { m: usize, h: u8, kv: Vec<(usize, Val)>, s: bool },
    BGet { m: usize, h: u8, ks: Vec<usize>, s: bool },
    BDel { m: usize, h: u8, ks: Vec<usize>, s: bool },
    Flush { m: usize, h: u8 },
    SyncAll { m: usize, h: u8 },
    SyncData { m: usize, h: u8 },
    DbSync { d: usize, all: bool },
    /// form 0 iter, 1 iter_mut, 2 &map, 3 &mut map, 4 map by value, 5 two iterators interleaved
    /// with gets; n: stop after this many (0 = run to the end)
    Iter { m: usize, h: u8, form: u8, n: u32 },
    Fill { m: usize, h: u8 },
    /// structure checks through the inspection interface
    Check { m: usize },
    Rate { m: usize },
    /// get every key of the pool, then iterate
    Verify { m: usize },
    /// decode the files (map closed, or flushed without later changes)
    Audit { m: usize },
    /// explore a crash here on a copy of the disk: power loss with a seed, or a killed process
    Probe { power: Option<u64> },
    /// crash for real; everything continues from what survived
    Crash { power: Option<u64> },
    Heal,
    /// background write-back
    Wb(u64),
    /// try to open map m as another type
    WrongType { m: usize, kt: Kt },
    /// stretch the value (1), key (2), index (4) file of a closed map by 4 GiB
    Far { m: usize, f: u8 },
    /// damage a signature byte of one file (0 key 1 val 2 idx 3 htx), expect refusal, restore
    BadSig { m: usize, file: u8, byte: u8 },
    /// remember / compare file sizes (bounded growth)
    Mark { m: usize, id: u8 },
    /// how many of the repeated cycles since the mark grew a file (allowed: high half key/value, low half index)
    NoGrow { m: usize, id: u8, slack: u64 },
}

#[derive(Clone, PartialEq, Debug)]
pub struct CrashAs {
    pub real: bool,
    pub power: Option<u64>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub kind: OpKind,
    pub faults: Vec<Fault>,
    pub crash: Option<CrashAs>,
}
impl Op {
    pub fn new(kind: OpKind) -> Self {
        Op {
            kind,
            faults: vec![],
            crash: None,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Prog {
    pub params: Vec<Params>,
    pub maps: Vec<MapSpec>,
    pub keys: [Vec<KeySpec>; 3],
    pub ops: Vec<Op>,
    /// run a second time with these parameters everywhere and compare
    pub twin: Option<Params>,
    /// run the same operations on an in-memory database and compare
    pub mem: bool,
    /// never ask for a key that is not there (a miss also writes and re-reads the index)
    pub nomiss: bool,
    /// number of database directories
    pub dbs: usize,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}
fn buf_s(b: &Buf) -> String {
    match b {
        Buf::Auto => "auto".into(),
        Buf::PerMille(x) => format!("pm{}", x),
        Buf::Size(x) => format!("sz{}", x),
        Buf::Bytes(x) => format!("by{}", x),
    }
}
fn buf_p(s: &str) -> Option<Buf> {
    if s == "auto" {
        Some(Buf::Auto)
    } else if let Some(x) = s.strip_prefix("pm") {
        Some(Buf::PerMille(x.parse().ok()?))
    } else if let Some(x) = s.strip_prefix("sz") {
        Some(Buf::Size(x.parse().ok()?))
} else if let Some(x) = s.strip_prefix("by") {
        Some(Buf::Bytes(x.parse().ok()?))
    } else {
        None
    }
}
fn params_s(p: &Params) -> String {
    if p.default {
        "default".into()
    } else {
        format!(
            "{},{},{},{}",
            buf_s(&p.val),
            buf_s(&p.key),
            buf_s(&p.idx),
            buf_s(&p.htx)
        )
    }
}
fn params_p(s: &str) -> Option<Params> {
    if s == "default" {
        return Some(DEFAULT_PARAMS);
    }
    let v: Vec<&str> = s.split(',').collect();
    if v.len() != 4 {
        return None;
    }
    Some(Params {
        default: false,
        val: buf_p(v[0])?,
        key: buf_p(v[1])?,
        idx: buf_p(v[2])?,
        htx: buf_p(v[3])?,
    })
}
fn val_s(v: &Val) -> String {
    format!("{}/{}", v.len, v.tag)
}
fn val_p(s: &str) -> Option<Val> {
    let (a, b) = s.split_once('/')?;
    Some(Val {
        len: a.parse().ok()?,
        tag: b.parse().ok()?,
    })
}
fn class_s(c: u8) -> String {
    if c == C_ANY {
        return "a".into();
    }
    let mut s = String::new();
    for (i, ch) in ["r", "w", "s", "t", "o"].iter().enumerate() {
        if c & (1 << i) != 0 {
            s.push_str(ch);
        }
    }
    s
}
fn class_p(s: &str) -> Option<u8> {
    let mut c = 0;
    for ch in s.chars() {
        c |= match ch {
            'r' => C_READ,
            'w' => C_WRITE,
            's' => C_SYNC,
            't' => C_TRUNC,
            'o' => C_OPEN,
            'a' => C_ANY,
            _ => return None,
        };
    }
    Some(c)
}
fn fault_s(f: &Fault) -> String {
    let k = match f.kind {
        FaultKind::Short(pm) => format!("short{}", pm),
        FaultKind::Wb(s) => format!("wb{}", s),
        k => k.name().to_string(),
    };
    format!("!{}@{}{}", k, class_s(f.class), f.at)
}
fn fault_p(s: &str) -> Option<Fault> {
    let s = s.strip_prefix('!')?;
    let (k, at) = s.split_once('@')?;
    let kind = match k {
        "eio" => FaultKind::Eio,
        "enospc" => FaultKind::Enospc,
        "eintr" => FaultKind::Eintr,
        "emfile" => FaultKind::Emfile,
        "eacces" => FaultKind::Eacces,
        "stuck" => FaultKind::Stuck,
        "full" => FaultKind::Full,
        "kill" => FaultKind::Kill,
        _ => {
            if let Some(x) = k.strip_prefix("short") {
                FaultKind::Short(x.parse().ok()?)
            } else if let Some(x) = k.strip_prefix("wb") {
                FaultKind::Wb(x.parse().ok()?)
            } else {
                return None;
            }
        }
    };
    let i = at.find(|c: char| c.is_ascii_digit())?;
    Some(Fault {
        kind,
        class: class_p(&at[..i])?,
        at: at[i..].parse().ok()?,
    })
}
fn pow_s(p: &Option<u64>) -> String {
    match p {
        Some(x) => format!("power:{}", x),
        None => "kill".into(),
    }
}
fn pow_p(s: &str) -> Option<Option<u64>> {
    if s == "kill" {
        Some(None)
    } else {
        Some(Some(s.strip_prefix("power:")?.parse().ok()?))
    }
}

impl Op {
    pub fn text(&self) -> String {
        let st = |s: &bool| if *s { "s" } else { "" };
        let mut t = match &self.kind {
            OpKind::Open(d) => format!("open {}", d),
            OpKind::Close(d) => format!("close {}", d),
            OpKind::DropDb(d) => format!("dropdb {}", d),
            OpKind::Map { m, p } => format!("map {} {}", m, p),
            OpKind::CloneH { m } => format!("clone {}", m),
            OpKind::Again { m, p } => format!("again {} {}", m, p),
            OpKind::DropH { m } => format!("droph {}", m),
            OpKind::Put { m, h, k, v, s } => format!("put{} {} {} {} {}", st(s), m, h, k, val_s(v)),
            OpKind::Get { m, h, k, s } => format!("get{} {} {} {}", st(s), m, h, k),
            OpKind::Del { m, h, k, s } => format!("del{} {} {} {}", st(s), m, h, k),
            OpKind::BPut { m, h, kv, s } => {
                let l: Vec<String> = kv.iter().map(|(k, v)| format!("{}={}", k, val_s(v))).collect();
                format!("bput{} {} {} [{}]", st(s), m, h, l.join(","))
            }
            OpKind::BGet { m, h, ks, s } => {
                let l: Vec<String> = ks.iter().map(|k| k.to_string()).collect();
                format!("bget{} {} {} [{}]", st(s), m, h, l.join(","))
            }
            OpKind::BDel { m, h, ks, s } => {
                let l: Vec<String> = ks.iter().map(|k| k.to_string()).collect();
                format!("bdel{} {} {} [{}]", st(s), m, h, l.join(","))
            }
            OpKind::Flush { m, h } => format!("flush {} {}", m, h),
            OpKind::SyncAll { m, h } => format!("syncall {} {}", m, h),
            OpKind::SyncData { m, h } => format!("syncdata {} {}", m, h),
            OpKind::DbSync { d, all } => format!("dbsync {} {}", d, if *all { "all" } else { "data" }),
            OpKind::Iter { m, h, form, n } => format!("iter {} {} {} {}", m, h, form, n),
            OpKind::Fill { m, h } => format!("fill {} {}", m, h),
            OpKind::Check { m } => format!("check {}", m),
            OpKind::Rate { m } => format!("rate {}", m),
            OpKind::Verify { m } => format!("verify {}", m),
            OpKind::Audit { m } => format!("audit {}", m),
            OpKind::Probe { power } => format!("probe {}", pow_s(power)),
            OpKind::Crash { power } => format!("crash {}", pow_s(power)),
            OpKind::Heal => "heal".into(),
            OpKind::Wb(s) => format!("writeback {}", s),
            OpKind::WrongType { m, kt } => format!("wrongtype {} {}", m, kt.ch()),
            OpKind::BadSig { m, file, byte } => format!("badsig {} {} {}", m, file, byte),
            OpKind::Far { m, f } => format!("far {} {}", m, f),
            OpKind::Mark { m, id } => format!("mark {} {}", m, id),
            OpKind::NoGrow { m, id, slack } => format!("nogrow {} {} {}", m, id, slack),
        };
        for f in &self.faults {
            t.push(' ');
            t.push_str(&fault_s(f));
        }
        if let Some(c) = &self.crash {
            t.push_str(&format!(
                " ~{}:{}",
                if c.real { "real" } else { "probe" },
                pow_s(&c.power)
            ));
        }
        t
    }
    pub fn parse(line: &str) -> Option<Op> {
        let mut w: Vec<&str> = line.split_whitespace().collect();
        let mut faults = vec![];
        let mut crash = None;
        while let Some(l) = w.last() {
            if l.starts_with('!') {
                faults.insert(0, fault_p(l)?);
                w.pop();
            } else if let Some(c) = l.strip_prefix('~') {
                let (a, b) = c.split_once(':')?;
                crash = Some(CrashAs {
                    real: a == "real",
                    power: pow_p(b)?,
                });
                w.pop();
            } else {
                break;
            }
        }
        let n = |i: usize| -> Option<usize> { w.get(i)?.parse().ok() };
        let list = |i: usize| -> Option<Vec<&str>> {
            let s = w.get(i)?.strip_prefix('[')?.strip_suffix(']')?;
            Some(if s.is_empty() { vec![] } else { s.split(',').collect() })
        };
        let ks = |i: usize| -> Option<Vec<usize>> { list(i)?.iter().map(|x| x.parse().ok()).collect() };
        let s = w[0].ends_with('s') && ["puts", "gets", "dels", "bputs", "bgets", "bdels"].contains(&w[0]);
        let name = if s { &w[0][..w[0].len() - 1] } else { w[0] };
        let kind = match name {
            "open" => OpKind::Open(n(1)?),
            "close" => OpKind::Close(n(1)?),
            "dropdb" => OpKind::DropDb(n(1)?),
            "map" => OpKind::Map { m: n(1)?, p: n(2)? },
            "clone" => OpKind::CloneH { m: n(1)? },
            "again" => OpKind::Again { m: n(1)?, p: n(2).unwrap_or(usize::MAX) },
            "droph" => OpKind::DropH { m: n(1)? },
            "put" => OpKind::Put { m: n(1)?, h: n(2)? as u8, k: n(3)?, v: val_p(w.get(4)?)?, s },
            "get" => OpKind::Get { m: n(1)?, h: n(2)? as u8, k: n(3)?, s },
            "del" => OpKind::Del { m: n(1)?, h: n(2)? as u8, k: n(3)?, s },
            "bput" => OpKind::BPut {
                m: n(1)?,
                h: n(2)? as u8,
                kv: list(3)?
                    .iter()
                    .map(|x| {
                        let (a, b) = x.split_once('=')?;
                        Some((a.parse().ok()?, val_p(b)?))
                    })
                    .collect::<Option<Vec<_>>>()?,
                s,
            },
            "bget" => OpKind::BGet { m: n(1)?, h: n(2)? as u8, ks: ks(3)?, s },
            "bdel" => OpKind::BDel { m: n(1)?, h: n(2)? as u8, ks: ks(3)?, s },
            "flush" => OpKind::Flush { m: n(1)?, h: n(2)? as u8 },
            "syncall" => OpKind::SyncAll { m: n(1)?, h: n(2)? as u8 },
            "syncdata" => OpKind::SyncData { m: n(1)?, h: n(2)? as u8 },
            "dbsync" => OpKind::DbSync { d: n(1)?, all: *w.get(2)? == "all" },
            "iter" => OpKind::Iter { m: n(1)?, h: n(2)? as u8, form: n(3)? as u8, n: n(4)? as u32 },
            "fill" => OpKind::Fill { m: n(1)?, h: n(2)? as u8 },
            "check" => OpKind::Check { m: n(1)? },
            "rate" => OpKind::Rate { m: n(1)? },
            "verify" => OpKind::Verify { m: n(1)? },
            "audit" => OpKind::Audit { m: n(1)? },
            "probe" => OpKind::Probe { power: pow_p(w.get(1)?)? },
            "crash" => OpKind::Crash { power: pow_p(w.get(1)?)? },
            "heal" => OpKind::Heal,
            "writeback" => OpKind::Wb(w.get(1)?.parse().ok()?),
            "wrongtype" => OpKind::WrongType { m: n(1)?, kt: Kt::of(w.get(2)?)? },
            "badsig" => OpKind::BadSig { m: n(1)?, file: n(2)? as u8, byte: n(3)? as u8 },
            "far" => OpKind::Far { m: n(1)?, f: n(2)? as u8 },
            "mark" => OpKind::Mark { m: n(1)?, id: n(2)? as u8 },
            "nogrow" => OpKind::NoGrow { m: n(1)?, id: n(2)? as u8, slack: n(3)? as u64 },
            _ => return None,
        };
        Some(Op { kind, faults, crash })
    }
}

/// a name as one word
fn name_text(n: &str) -> String {
    match n {
        "" => "%e".into(),
        _ => n.replace('%', "%p").replace(' ', "%s"),
    }
}
fn text_name(t: &str) -> String {
    match t {
        "%e" => String::new(),
        _ => t.replace("%s", " ").replace("%p", "%"),
    }
}

impl Prog {
    pub fn text(&self) -> String {
        let mut t = String::new();
        t.push_str(&format!("dbs {}\n", self.dbs));
        if self.mem {
            t.push_str("mem\n");
        }
        if self.nomiss {
            t.push_str("nomiss\n");
        }
        if let Some(p) = &self.twin {
            t.push_str(&format!("twin {}\n", params_s(p)));
        }
        for (i, p) in self.params.iter().enumerate() {
            t.push_str(&format!("params {} {}\n", i, params_s(p)));
        }
        for (i, m) in self.maps.iter().enumerate() {
            t.push_str(&format!("mapdef {} {} {} {}\n", i, m.db, m.kt.ch(), name_text(&m.name)));
        }
        // only the keys that are used
        let used = self.used_keys();
        for kt in [Kt::S, Kt::I, Kt::B] {
            for (i, k) in self.keys[kt.ix()].iter().enumerate() {
                if !used.contains(&(kt, i)) {
                    continue;
                }
                match k {
                    KeySpec::Hex(b) => t.push_str(&format!("key {} {} x{}\n", kt.ch(), i, hex(b))),
                    KeySpec::Gen(l, s) => t.push_str(&format!("key {} {} g{},{}\n", kt.ch(), i, l, s)),
                }
            }
        }
        for o in &self.ops {
            t.push_str(&o.text());
            t.push('\n');
        }
        t
    }
    pub fn used_keys(&self) -> std::collections::BTreeSet<(Kt, usize)> {
        let mut u = std::collections::BTreeSet::new();
        for o in &self.ops {
            match &o.kind {
                OpKind::Put { m, k, .. } | OpKind::Get { m, k, .. } | OpKind::Del { m, k, .. } => {
                    u.insert((self.maps[*m].kt, *k));
                }
                OpKind::BPut { m, kv, .. } => {
                    for (k, _) in kv {
                        u.insert((self.maps[*m].kt, *k));
                    }
                }
                OpKind::BGet { m, ks, .. } | OpKind::BDel { m, ks, .. } => {
                    for k in ks {
                        u.insert((self.maps[*m].kt, *k));
                    }
                }
                _ => (),
            }
        }
        u
    }
    pub fn parse(text: &str) -> Result<Prog, String> {
        let mut p = Prog {
            dbs: 1,
            ..Default::default()
        };
        for (ln, line) in text.lines().enumerate() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let bad = || format!("line {}: {}", ln + 1, line);
            let w: Vec<&str> = line.split_whitespace().collect();
            match w[0] {
                "dbs" => p.dbs = w[1].parse().map_err(|_| bad())?,
                "mem" => p.mem = true,
                "nomiss" => p.nomiss = true,
                "twin" => p.twin = Some(params_p(w[1]).ok_or_else(bad)?),
                "params" => p.params.push(params_p(w[2]).ok_or_else(bad)?),
                "mapdef" => p.maps.push(MapSpec {
                    db: w[2].parse().map_err(|_| bad())?,
                    kt: Kt::of(w[3]).ok_or_else(bad)?,
                    name: text_name(w[4]),
                }),
                "key" => {
                    let kt = Kt::of(w[1]).ok_or_else(bad)?;
                    let i: usize = w[2].parse().map_err(|_| bad())?;
                    let spec = if let Some(h) = w[3].strip_prefix('x') {
                        KeySpec::Hex(unhex(h).ok_or_else(bad)?)
                    } else {
                        let (a, b) = w[3][1..].split_once(',').ok_or_else(bad)?;
                        KeySpec::Gen(a.parse().map_err(|_| bad())?, b.parse().map_err(|_| bad())?)
                    };
                    let v = &mut p.keys[kt.ix()];
                    while v.len() <= i {
                        v.push(KeySpec::Hex(vec![]));
                    }
                    v[i] = spec;
                }
                _ => p.ops.push(Op::parse(line).ok_or_else(bad)?),
            }
        }
        Ok(p)
    }
}

//! One uniform view of the six map types of the public interface. Keys are given as raw bytes and
//! turned into the key type a caller would use (`&str`, `&u64`, `&[u8]`).
use siamesedb::filedb::{CheckFileDbMap, FileDbMapDbBytes, FileDbMapDbInt, FileDbMapDbString};
use siamesedb::memdb::{MemoryDbMapDbBytes, MemoryDbMapDbInt, MemoryDbMapDbString};
use siamesedb::filedb::{DbBytes, DbInt, DbString};
use siamesedb::{DbMap, DbMapKeyType, DbXxx, DbXxxBase, DbXxxObjectSafe};
use std::io::Result;

pub type Kv = (Vec<u8>, Vec<u8>);

#[derive(Debug, Default, PartialEq, Clone)]
pub struct Stats {
    pub balanced: bool,
    pub mst: bool,
    pub dense: bool,
    pub depth: u64,
    pub ht_size: u64,
    pub used_nodes: u64,
    pub used_keys: u64,
    pub used_vals: u64,
    pub free_nodes: u64,
    pub free_keys: u64,
    pub free_vals: u64,
    /// (length, count)
    pub key_len: Vec<(u64, u64)>,
    pub val_len: Vec<(u64, u64)>,
    pub key_piece: Vec<(u64, u64)>,
    pub val_piece: Vec<(u64, u64)>,
    /// (keys in the node, nodes)
    pub node_keys: Vec<(u64, u64)>,
    /// counts by piece class
    pub used_by: [Vec<u64>; 2],
    pub free_by: [Vec<u64>; 2],
}

pub trait AnyMap {
    fn get(&mut self, k: &[u8], s: bool) -> Result<Option<Vec<u8>>>;
    fn put(&mut self, k: &[u8], v: &[u8], s: bool) -> Result<()>;
    fn del(&mut self, k: &[u8], s: bool) -> Result<Option<Vec<u8>>>;
    fn bget(&mut self, k: &[Vec<u8>], s: bool) -> Result<Vec<Option<Vec<u8>>>>;
    fn bput(&mut self, kv: &[Kv], s: bool) -> Result<()>;
    fn bdel(&mut self, k: &[Vec<u8>], s: bool) -> Result<Vec<Option<Vec<u8>>>>;
    fn flush(&mut self) -> Result<()>;
    fn sync_all(&mut self) -> Result<()>;
    fn sync_data(&mut self) -> Result<()>;
    fn fill(&mut self) -> Result<()>;
    fn iter(&mut self, form: u8, n: u32) -> Vec<Kv>;
    fn rate(&self) -> Result<u64>;
    fn stats(&self) -> Result<Stats>;
    fn dup(&self) -> Box<dyn AnyMap>;
}

/// parse "[(a, b), (c, d)]"
fn pairs(s: &str) -> Vec<(u64, u64)> {
    let nums: Vec<u64> = s
        .split(|c: char| !c.is_ascii_digit())
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap())
        .collect();
    nums.chunks(2).map(|c| (c[0], c[1])).collect()
}
fn total(v: &[(u32, u64)]) -> u64 {
    v.iter().map(|x| x.1).sum()
}
fn counts(v: &[(u32, u64)]) -> Vec<u64> {
    v.iter().map(|x| x.1).collect()
}
fn ob(o: Option<String>) -> Option<Vec<u8>> {
    o.map(|s| s.into_bytes())
}

/// a key object, made in any of the ways there are
macro_rules! key_of {
    ($k:expr, $kt:ty) => {{
        let k: &[u8] = $k;
        let num = <[u8; 8]>::try_from(k).map(u64::from_be_bytes);
        let text = std::str::from_utf8(k);
        match (pick(10), num, text) {
            (0, _, _) => <$kt>::from(k.to_vec()),
            (1, _, Ok(t)) => <$kt>::from(t),
            (2, _, Ok(t)) => <$kt>::from(t.to_string()),
            (3, _, Ok(t)) => <$kt>::from(&t.to_string()),
            (4, Ok(n), _) => <$kt>::from(n),
            (5, Ok(n), _) => <$kt>::from(&n),
            (6, Ok(n), _) => <$kt>::from(&n.to_be_bytes()),
            (7, _, _) => <$kt>::from(&<$kt>::from(k)),
            (8, _, _) => <$kt>::from_bytes(k),
            (9, _, _) => <$kt>::from_bytes(k).clone(),
            _ => <$kt>::from(k),
        }
    }};
}
/// call a method with a borrowed key of any of the accepted types
macro_rules! with_key {
    ($k:expr, $x:ident => $call:expr, $o:expr, $q:expr, $kt:ty) => {{
        let k: &[u8] = $k;
        let num = <[u8; 8]>::try_from(k).map(u64::from_be_bytes);
        let text = std::str::from_utf8(k);
        match (pick(8), num, text) {
            (0, _, Ok(t)) => {
                let $x = t;
                $call
            }
            (1, _, Ok(t)) => {
                let $x = &t.to_string();
                $call
            }
            (2, Ok(n), _) => {
                let $x = &n;
                $call
            }
            (3, Ok(n), _) => {
                let $x = &n.to_be_bytes();
                $call
            }
            (4, _, _) => {
                let $x = &key_of!(k, $kt);
                $call
            }
            (5, _, _) => {
                let $x = k;
                $call
            }
            _ => {
                let $x = $q(&$o);
                $call
            }
        }
    }};
}
macro_rules! common {
    ($own:expr, $q:expr, $kt:ty) => {
        fn get(&mut self, k: &[u8], s: bool) -> Result<Option<Vec<u8>>> {
            let o = $own(k);
            if s {
                with_key!(k, x => self.0.get_string(x), o, $q, $kt).map(ob)
            } else {
                match way() {
                    0 => self.0.get_kt(&key_of!(k, $kt)),
                    _ => with_key!(k, x => self.0.get(x), o, $q, $kt),
                }
            }
        }
        fn put(&mut self, k: &[u8], v: &[u8], s: bool) -> Result<()> {
            let o = $own(k);
            if s {
                { let v = String::from_utf8_lossy(v); with_key!(k, x => self.0.put_string(x, &v), o, $q, $kt) }
            } else {
                match way() {
                    0 => self.0.put_kt(&key_of!(k, $kt), v),
                    _ => with_key!(k, x => self.0.put(x, v), o, $q, $kt),
                }
            }
        }
        fn del(&mut self, k: &[u8], s: bool) -> Result<Option<Vec<u8>>> {
            let o = $own(k);
            if s {
                with_key!(k, x => self.0.delete_string(x), o, $q, $kt).map(ob)
            } else {
                match way() {
                    0 => self.0.del_kt(&key_of!(k, $kt)),
                    _ => with_key!(k, x => self.0.delete(x), o, $q, $kt),
                }
            }
        }
        fn bget(&mut self, k: &[Vec<u8>], s: bool) -> Result<Vec<Option<Vec<u8>>>> {
            let o: Vec<_> = k.iter().map(|k| $own(k)).collect();
            let q: Vec<_> = o.iter().map(|o| $q(o)).collect();
            if s {
                Ok(self.0.bulk_get_string(&q)?.into_iter().map(ob).collect())
            } else {
                if way() < 2 {
                    return self.0.bulk_get(&q);
                }
                let k: Vec<$kt> = k.iter().map(|k| key_of!(k, $kt)).collect();
                self.0.bulk_get(&k.iter().collect::<Vec<_>>())
            }
        }
        fn bput(&mut self, kv: &[Kv], s: bool) -> Result<()> {
            let o: Vec<_> = kv.iter().map(|k| $own(&k.0)).collect();
            if s {
                let q: Vec<_> = o
                    .iter()
                    .zip(kv)
                    .map(|(o, k)| ($q(o), String::from_utf8_lossy(&k.1).to_string()))
                    .collect();
                self.0.bulk_put_string(&q)
            } else {
                let q: Vec<_> = o.iter().zip(kv).map(|(o, k)| ($q(o), &k.1[..])).collect();
                if way() < 2 {
                    return self.0.bulk_put(&q);
                }
                let k: Vec<$kt> = kv.iter().map(|k| key_of!(&k.0, $kt)).collect();
                let q: Vec<_> = k.iter().zip(kv).map(|(k, x)| (k, &x.1[..])).collect();
                self.0.bulk_put(&q)
            }
        }
        fn bdel(&mut self, k: &[Vec<u8>], s: bool) -> Result<Vec<Option<Vec<u8>>>> {
            let o: Vec<_> = k.iter().map(|k| $own(k)).collect();
            let q: Vec<_> = o.iter().map(|o| $q(o)).collect();
            if s {
                Ok(self.0.bulk_delete_string(&q)?.into_iter().map(ob).collect())
            } else {
                if way() < 2 {
                    return self.0.bulk_delete(&q);
                }
                let k: Vec<$kt> = k.iter().map(|k| key_of!(k, $kt)).collect();
                self.0.bulk_delete(&k.iter().collect::<Vec<_>>())
            }
        }
        fn flush(&mut self) -> Result<()> {
            self.0.flush()
        }
        fn sync_all(&mut self) -> Result<()> {
            self.0.sync_all()
        }
        fn sync_data(&mut self) -> Result<()> {
            self.0.sync_data()
        }
        fn fill(&mut self) -> Result<()> {
            self.0.read_fill_buffer()
        }
    };
}

fn own_str(k: &[u8]) -> String {
    String::from_utf8(k.to_vec()).expect("string key")
}
fn own_int(k: &[u8]) -> u64 {
    let mut b = [0u8; 8];
    let n = k.len().min(8);
    b[..n].copy_from_slice(&k[..n]);
    u64::from_be_bytes(b)
}
fn own_bytes(k: &[u8]) -> Vec<u8> {
    k.to_vec()
}
fn q_str(s: &String) -> &str {
    s.as_str()
}
fn q_int(s: &u64) -> &u64 {
    s
}
fn q_bytes(s: &Vec<u8>) -> &[u8] {
    &s[..]
}

thread_local! {
    static WAY: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn reset_ways() {
    WAY.with(|w| w.set(0));
}
/// the next way of writing a key down: borrowed, as a key object (two ways), as plain bytes
fn way() -> u64 {
    WAY.with(|w| {
        w.set(w.get() + 1);
        crate::rng::mix(w.get(), 0x3a) % 4
    })
}
fn pick(n: u64) -> u64 {
    WAY.with(|w| {
        w.set(w.get() + 1);
        crate::rng::mix(w.get(), 0x4b) % n
    })
}
fn lim<K: DbMapKeyType, I: Iterator<Item = (K, Vec<u8>)>>(mut it: I, n: u32) -> Vec<Kv> {
    let f = |(k, v): (K, Vec<u8>)| (k.as_bytes().to_vec(), v);
    if n == 0 {
        let mut out: Vec<Kv> = it.by_ref().map(f).collect();
        // an iterator that has ended stays ended
        if pick(4) == 0 {
            out.extend(it.by_ref().take(2).map(f));
            out.extend(it.take(2).map(f));
        }
        out
    } else {
        it.take(n as usize).map(f).collect()
    }
}

macro_rules! file_map {
    ($w:ident, $t:ty, $own:expr, $q:expr, $kt:ty) => {
        pub struct $w(pub $t);
        impl AnyMap for $w {
            common!($own, $q, $kt);
            fn iter(&mut self, form: u8, n: u32) -> Vec<Kv> {
                match form {
                    0 => lim(self.0.iter(), n),
                    1 => lim(self.0.iter_mut(), n),
                    2 => lim((&self.0).into_iter(), n),
                    3 => lim((&mut self.0).into_iter(), n),
                    4 => lim(self.0.clone().into_iter(), n),
                    _ => {
                        // two cursors in step, a point read between the steps; a disagreement
                        // shows up as an entry no map can hold
                        let mut a = self.0.iter();
                        let mut b = self.0.iter();
                        let mut other = self.0.clone();
                        let mut out: Vec<Kv> = vec![];
                        loop {
                            let x = a.next();
                            let y = b.next();
                            if x.is_none() && y.is_none() {
                                break;
                            }
                            let (x, y) = match (x, y) {
                                (Some(x), Some(y)) => (x, y),
                                _ => {
                                    out.push((vec![], b"cursors disagree on the end".to_vec()));
                                    break;
                                }
                            };
                            let k = x.0.as_bytes().to_vec();
                            let o = $own(&k);
                            let v = other.get($q(&o)).expect("get while iterating");
                            if x.0 != y.0 || x.1 != y.1 || v.as_ref() != Some(&x.1) {
                                out.push((k, b"cursors disagree".to_vec()));
                                break;
                            }
                            out.push((k, x.1));
                            if n != 0 && out.len() >= n as usize {
                                break;
                            }
                        }
                        out
                    }
                }
            }
            fn stats(&self) -> Result<Stats> {
                let (key, val, node) = self.0.count_of_used_node()?;
                let (free_key, free_val) = (self.0.count_of_free_key_piece()?, self.0.count_of_free_value_piece()?);
                // only seen not to fail
                let _ = self.0.graph_string()?;
                let _ = self.0.graph_string_with_key_string()?;
                Ok(Stats {
                    balanced: self.0.is_balanced()?,
                    mst: self.0.is_mst_valid()?,
                    dense: self.0.is_dense()?,
                    depth: self.0.depth_of_node_tree()?,
                    ht_size: self.0.ht_size_and_count()?.0,
                    used_nodes: total(&node),
                    used_keys: total(&key),
                    used_vals: total(&val),
                    free_nodes: total(&self.0.count_of_free_node()?),
                    free_keys: total(&free_key),
                    free_vals: total(&free_val),
                    key_len: pairs(&self.0.key_length_stats()?.to_string()),
                    val_len: pairs(&self.0.value_length_stats()?.to_string()),
                    key_piece: pairs(&self.0.key_piece_size_stats()?.to_string()),
                    val_piece: pairs(&self.0.value_piece_size_stats()?.to_string()),
                    node_keys: pairs(&self.0.keys_count_stats()?.to_string()),
                    used_by: [counts(&key), counts(&val)],
                    free_by: [counts(&free_key), counts(&free_val)],
                })
            }
            fn rate(&self) -> Result<u64> {
                self.0.htx_filling_rate_per_mill().map(|x| x.0)
            }
            fn dup(&self) -> Box<dyn AnyMap> {
                Box::new($w(self.0.clone()))
            }
        }
    };
}
file_map!(FS, FileDbMapDbString, own_str, q_str, DbString);
file_map!(FI, FileDbMapDbInt, own_int, q_int, DbInt);
file_map!(FB, FileDbMapDbBytes, own_bytes, q_bytes, DbBytes);

macro_rules! mem_map {
    ($w:ident, $t:ty, $own:expr, $q:expr, $kt:ty) => {
        pub struct $w(pub $t);
        impl AnyMap for $w {
            common!($own, $q, $kt);
            fn iter(&mut self, _form: u8, _n: u32) -> Vec<Kv> {
                vec![]
            }
            fn stats(&self) -> Result<Stats> {
                Ok(Stats::default())
            }
            fn rate(&self) -> Result<u64> {
                Ok(0)
            }
            fn dup(&self) -> Box<dyn AnyMap> {
                Box::new($w(self.0.clone()))
            }
        }
    };
}
mem_map!(MS, MemoryDbMapDbString<'static>, own_str, q_str, DbString);
mem_map!(MI, MemoryDbMapDbInt<'static>, own_int, q_int, DbInt);
mem_map!(MB, MemoryDbMapDbBytes<'static>, own_bytes, q_bytes, DbBytes);

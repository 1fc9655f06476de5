use storage_core::backend::{Backend, BackendImpl, ReadOps, SharedBackendImpl, TxRw, WriteOps};
use storage_core::{types::construct::db_desc, Data, DbMapDesc, DbMapId};
use storage_inmemory::{InMemory, InMemoryImpl};

const MAPS: [DbMapId; 2] = [DbMapId::new(0), DbMapId::new(1)];

fn open() -> InMemoryImpl {
    InMemory::new().open(db_desc([DbMapDesc::new("a"), DbMapDesc::new("b")].into_iter())).unwrap()
}

/// The history of one map, oldest first; None deletes.
type History = Vec<(Data, Option<Data>)>;

fn live<'a>(h: &'a History, key: &[u8]) -> Option<&'a Data> {
    h.iter().rev().find(|(k, _)| k == key).and_then(|(_, v)| v.as_ref())
}

fn distinct(h: &History, keep: impl Fn(&[u8]) -> bool) -> usize {
    let last = |i: usize| h[i + 1..].iter().all(|(k, _)| *k != h[i].0);
    (0..h.len()).filter(|i| h[*i].1.is_some() && last(*i) && keep(&h[*i].0)).count()
}

fn check_read(t: &impl ReadOps, map: DbMapId, h: &History, probe: &Data, what: usize) {
    match what {
        0 => {
            let got = t.get(map, probe).unwrap().map(|v| v.into_owned());
            sym::cover(if got.is_some() { "found" } else { "absent" });
            sym::check(got.as_ref() == live(h, probe), "reading a key gives what was written to it last");
        }
        1 => {
            let got: Vec<_> = t.prefix_iter(map, probe.clone()).unwrap().collect();
            sym::cover(if got.len() > 1 { "several" } else { "few" });
            check_list(&got, h, |k| k.starts_with(probe), |k| k.starts_with(probe));
        }
        _ => {
            let got: Vec<_> = t.greater_equal_iter(map, probe.clone()).unwrap().collect();
            sym::cover(if got.len() > 1 { "several" } else { "few" });
            check_list(&got, h, |k| k >= &probe[..], |k| k >= &probe[..]);
        }
    }
}

fn check_list(got: &[(Data, Data)], h: &History, a: impl Fn(&[u8]) -> bool, b: impl Fn(&[u8]) -> bool) {
    for (i, (k, v)) in got.iter().enumerate() {
        sym::check(a(k), "an iterator yields only keys of its range");
        sym::check(i == 0 || got[i - 1].0 < *k, "an iterator yields keys in ascending order, each once");
        sym::check(live(h, k) == Some(v), "an iterator yields what was written last");
    }
    sym::check(got.len() == distinct(h, b), "an iterator yields every key of its range");
}

/// up to two symbolic bytes
fn key(len: &'static str, bytes: &'static str) -> Data {
    let n = sym::choose(len, 3);
    sym::bytes::<2>(bytes)[..n].to_vec()
}

fn change(t: &mut impl WriteOps, map: DbMapId, h: &mut History, k: Data, v: Option<Data>) {
    match v.clone() {
        Some(v) => t.put(map, k.clone(), v).unwrap(),
        None => t.del(map, &k).unwrap(),
    }
    h.push((k, v));
}

//@ prop=T01
//@ time=90
//@ covers=found|absent|several|few|commit|abort
//@ bounds=two stored and two changed keys of up to 2 arbitrary bytes in one map, read by any key or prefix of up to 2 bytes within the transaction, after it and when it is dropped
#[no_mangle]
pub extern "C" fn h_store_view() {
    let mut s = open();
    let mut h = History::new();
    let mut t = BackendImpl::transaction_rw(&mut s, None).unwrap();
    change(&mut t, MAPS[0], &mut h, key("stored 0", "stored key 0"), Some(vec![1]));
    change(&mut t, MAPS[0], &mut h, vec![0x80, 7], Some(vec![2]));
    t.commit().unwrap();
    let before = h.clone();
    let mut t = BackendImpl::transaction_rw(&mut s, None).unwrap();
    let v = if sym::flag("put") { Some(vec![3]) } else { None };
    change(&mut t, MAPS[0], &mut h, key("changed 0", "changed key 0"), v);
    let v = if sym::flag("put again") { Some(vec![]) } else { None };
    change(&mut t, MAPS[0], &mut h, vec![0x80], v);
    let (probe, what) = (key("probe", "probe key"), sym::choose("read", 3));
    match sym::choose("when", 3) {
        0 => check_read(&t, MAPS[0], &h, &probe, what),
        1 => {
            sym::cover("commit");
            t.commit().unwrap();
            check_read(&s.transaction_ro().unwrap(), MAPS[0], &h, &probe, what);
        }
        _ => {
            sym::cover("abort");
            drop(t);
            check_read(&s.transaction_ro().unwrap(), MAPS[0], &before, &probe, what);
        }
    }
}

//@ prop=T01
//@ time=120
//@ covers=found|absent|several|few|commit|abort
//@ bounds=two successive transactions, each committed or dropped, of two changes each, to one-byte keys of two maps, read within or after the second through any handle
#[no_mangle]
pub extern "C" fn h_store_history() {
    let s = open();
    let other = s.clone();
    let keys = [vec![sym::u8("k0")], vec![sym::u8("k1")], vec![5u8, sym::u8("k2")]];
    let mut hs = [History::new(), History::new()];
    let names = [
        [["map 0", "key 0"], ["map 1", "key 1"]],
        [["map 2", "key 2"], ["map 3", "key 3"]],
    ];
    let puts = [["put 0", "put 1"], ["put 2", "put 3"]];
    let last = sym::flag("read within");
    for i in 0..2 {
        let from = if i == 0 { &s } else { &other };
        let mut t = SharedBackendImpl::transaction_rw(from, None).unwrap();
        let mut now = hs.clone();
        for j in 0..2 {
            let m = if i == 1 && j == 1 { 1 } else { sym::choose(names[i][j][0], 2) };
            let k = if j == 1 && i == 0 { 2 } else { sym::choose(names[i][j][1], 2) };
            let v = if i == 0 && j == 0 || sym::flag(puts[i][j]) { Some(vec![(i * 2 + j) as u8]) } else { None };
            change(&mut t, MAPS[m], &mut now[m], keys[k].clone(), v);
        }
        if i == 1 && last {
            let m = sym::choose("map", 2);
            check_read(&t, MAPS[m], &now[m], &vec![sym::u8("probe")], sym::choose("read", 3));
            return;
        }
        if sym::flag(["commit 0", "commit 1"][i]) {
            sym::cover("commit");
            t.commit().unwrap();
            hs = now;
        } else {
            sym::cover("abort");
        }
    }
    let m = sym::choose("map", 2);
    let probe = if sym::flag("long") { vec![5, sym::u8("probe")] } else { vec![sym::u8("probe")] };
    check_read(&s.transaction_ro().unwrap(), MAPS[m], &hs[m], &probe, sym::choose("read", 3));
}

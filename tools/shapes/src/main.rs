//! Breadth-first search over the red-black tree shapes (with colours) that inserts and removes reach.
//! Prints, per shape, one shortest history: (insert gap | remove rank) resolved to ranks among all keys ever used.
use rpds::RedBlackTreeMap;
use std::collections::{HashMap, VecDeque};
fn shape(m: &RedBlackTreeMap<u64, ()>) -> String {
    let d = format!("{m:?}");
    let mut o = String::new();
    let mut rest = d.as_str();
    while let Some(i) = rest.find("key: ") {
        o.push_str(&rest[..i]);
        rest = &rest[i + 5..];
        let j = rest.find(',').unwrap();
        rest = &rest[j..];
    }
    o.push_str(rest);
    o
}
fn main() {
    let max: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let over: usize = std::env::args().nth(2).unwrap().parse().unwrap();
    let mut seen: HashMap<String, ()> = HashMap::new();
    let mut q = VecDeque::new();
    let m0: RedBlackTreeMap<u64, ()> = RedBlackTreeMap::new();
    seen.insert(shape(&m0), ());
    q.push_back((m0, Vec::<(bool, u64)>::new()));
    let mut out = vec![];
    while let Some((m, h)) = q.pop_front() {
        if m.size() <= max { out.push((m.size(), h.clone())); }
        let keys: Vec<u64> = m.keys().copied().collect();
        let mut next = vec![];
        if m.size() < over {
            for g in 0..=keys.len() {
                let lo = if g == 0 { 0 } else { keys[g - 1] };
                let hi = if g == keys.len() { 1 << 62 } else { keys[g] };
                // keep clear of removed keys of the history: any key strictly between works
                let mut k = lo + (hi - lo) / 2;
                while h.iter().any(|x| x.1 == k) { k += 1; }
                next.push((true, k));
            }
        }
        for k in &keys { next.push((false, *k)); }
        for (ins, k) in next {
            let n = if ins { m.insert(k, ()) } else { m.remove(&k) };
            let s = shape(&n);
            if seen.insert(s, ()).is_none() {
                let mut h2 = h.clone();
                h2.push((ins, k));
                q.push_back((n, h2));
            }
        }
    }
    out.sort_by_key(|x| (x.0, x.1.len()));
    for (n, h) in out {
        let mut ks: Vec<u64> = h.iter().map(|x| x.1).collect();
        ks.sort(); ks.dedup();
        let enc: Vec<String> = h.iter().map(|(i, k)| {
            let r = ks.binary_search(k).unwrap();
            format!("{}", if *i { r as u64 } else { 64 + r as u64 } + 1)
        }).collect();
        println!("{} {} {}", n, ks.len(), enc.join(" "));
    }
}

//! Conversions between maps, sets, other collections and text.
use crate::alloc::{self, scope, unscoped};
use crate::api::*;
use crate::conc::*;
use crate::rng::Rng;
use crate::types::*;
use crate::CaseOut;
use serde_json::json;
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::*;

type M = papaya::HashMap<u32, u64, Pb>;
type S = papaya::HashSet<u32, Pb>;

fn v(msg: String) {
    violation("CONV", msg);
}

fn hb(rng: &mut Rng) -> Hb {
    Hb { mode: rng.pick(&[0, 0, 1, 5, 7, 8]), salt: rng.next() }
}

/// A map or set with some history, and what it should hold.
fn source(rng: &mut Rng, n: usize) -> (M, S, BTreeMap<u32, u64>) {
    let mode = rng.pick(&[0, 1, 1, 1, 2, 64]);
    let cap = rng.pick(&[0, 0, 0, 1, 30, 300]);
    let (h1, h2) = (hb(rng), hb(rng));
    let m: M = papaya::HashMap::<u32, u64>::builder()
        .hasher(Pb(h1))
        .resize_mode(resize_mode(mode))
        .capacity(cap)
        .build();
    let s: S = papaya::HashSet::<u32>::builder()
        .hasher(Pb(h2))
        .resize_mode(resize_mode(mode))
        .capacity(cap)
        .build();
    let mut model = BTreeMap::new();
    let space = n as u32 * 2 + 1;
    let at = rng.pick(&[1, 2, 3, 4, 1000]);
    let e0 = EVENTS[0].load(Relaxed);
    for _ in 0..n * 2 {
        let k = rng.below(space as usize) as u32;
        if rng.chance(1, 4) {
            m.pin().remove(&k);
            s.pin().remove(&k);
            model.remove(&k);
        } else {
            let x = rng.next() >> 40;
            m.pin().insert(k, x);
            s.pin().insert(k);
            model.insert(k, x);
        }
        // Often stop right after a resize began.
        if EVENTS[0].load(Relaxed) - e0 >= at {
            break;
        }
    }
    (m, s, model)
}

fn contents(m: &M) -> BTreeMap<u32, u64> {
    let g = m.guard();
    let mut out = BTreeMap::new();
    for (k, x) in m.iter(&g) {
        if out.insert(*k, *x).is_some() {
            v(format!("a conversion holds key {k} twice"));
        }
    }
    for (k, x) in &out {
        if m.get(k, &g) != Some(x) {
            v(format!("a conversion's iteration and lookup disagree about {k}"));
        }
    }
    if m.len() != out.len() {
        v(format!("a conversion says len() = {} but iterates over {} entries", m.len(), out.len()));
    }
    out
}

fn contents_set(s: &S) -> BTreeSet<u32> {
    let g = s.guard();
    let mut out = BTreeSet::new();
    for k in s.iter(&g) {
        if !out.insert(*k) {
            v(format!("a converted set holds {k} twice"));
        }
    }
    if s.len() != out.len() {
        v(format!("a converted set says len() = {} but iterates over {} elements", s.len(), out.len()));
    }
    out
}

/// A serialiser for formats that write the number of entries first: counts what was announced and what came.
mod prefixed {
    use serde::ser::{Impossible, Serialize, SerializeMap, SerializeSeq, Serializer};
    type E = serde::de::value::Error;
    fn no<T>() -> Result<T, E> {
        Err(serde::ser::Error::custom("not a map or a sequence"))
    }
    pub struct Top;
    pub struct Count(Option<usize>, usize);
    impl SerializeMap for Count {
        type Ok = (Option<usize>, usize);
        type Error = E;
        fn serialize_key<T: Serialize + ?Sized>(&mut self, _: &T) -> Result<(), E> {
            Ok(())
        }
        fn serialize_value<T: Serialize + ?Sized>(&mut self, _: &T) -> Result<(), E> {
            self.1 += 1;
            Ok(())
        }
        fn end(self) -> Result<Self::Ok, E> {
            Ok((self.0, self.1))
        }
    }
    impl SerializeSeq for Count {
        type Ok = (Option<usize>, usize);
        type Error = E;
        fn serialize_element<T: Serialize + ?Sized>(&mut self, _: &T) -> Result<(), E> {
            self.1 += 1;
            Ok(())
        }
        fn end(self) -> Result<Self::Ok, E> {
            Ok((self.0, self.1))
        }
    }
    macro_rules! refuse {
        ($($f:ident: $t:ty),*) => {$(fn $f(self, _: $t) -> Result<Self::Ok, E> { no() })*};
    }
    impl Serializer for Top {
        type Ok = (Option<usize>, usize);
        type Error = E;
        type SerializeSeq = Count;
        type SerializeMap = Count;
        type SerializeTuple = Impossible<Self::Ok, E>;
        type SerializeTupleStruct = Impossible<Self::Ok, E>;
        type SerializeTupleVariant = Impossible<Self::Ok, E>;
        type SerializeStruct = Impossible<Self::Ok, E>;
        type SerializeStructVariant = Impossible<Self::Ok, E>;
        refuse!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
            serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
            serialize_f64: f64, serialize_char: char, serialize_str: &str, serialize_bytes: &[u8], serialize_unit_struct: &'static str);
        fn serialize_none(self) -> Result<Self::Ok, E> {
            no()
        }
        fn serialize_unit(self) -> Result<Self::Ok, E> {
            no()
        }
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Self::Ok, E> {
            no()
        }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Self::Ok, E> {
            no()
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<Self::Ok, E> {
            t.serialize(self)
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<Self::Ok, E> {
            no()
        }
        fn serialize_seq(self, n: Option<usize>) -> Result<Count, E> {
            Ok(Count(n, 0))
        }
        fn serialize_map(self, n: Option<usize>) -> Result<Count, E> {
            Ok(Count(n, 0))
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
            no()
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
            no()
        }
        fn serialize_tuple_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleVariant, E> {
            no()
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
            no()
        }
        fn serialize_struct_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStructVariant, E> {
            no()
        }
    }
}

/// The number of entries that a serialisation announces is the number it delivers.
fn announced(what: &str, r: Result<(Option<usize>, usize), serde::de::value::Error>, want: usize) {
    match r {
        Ok((a, n)) if n == want && a.is_none_or(|a| a == want) => {}
        Ok((a, n)) => v(format!("serialising {what} of {want} entries announces {a:?} and delivers {n}")),
        Err(_) => {}
    }
}

/// What an iterator says about its length is true.
fn hinted<T>(what: &str, mut it: impl Iterator<Item = T>, want: usize) {
    let mut seen = 0;
    loop {
        let (lo, hi) = it.size_hint();
        let left = want - seen.min(want);
        if lo > left || hi.is_some_and(|hi| hi < left) {
            v(format!("{what} says that {lo} to {hi:?} items follow when {left} do"));
        }
        if it.next().is_none() {
            break;
        }
        seen += 1;
    }
    if seen != want {
        v(format!("{what} yields {seen} items of {want}"));
    }
}

fn parse_debug_map(t: &str) -> Option<Vec<(u32, u64)>> {
    let t = t.strip_prefix('{')?.strip_suffix('}')?;
    if t.is_empty() {
        return Some(vec![]);
    }
    t.split(", ")
        .map(|e| {
            let (a, b) = e.split_once(": ")?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect()
}
fn parse_list(t: &str, open: char, close: char) -> Option<Vec<u32>> {
    let t = t.strip_prefix(open)?.strip_suffix(close)?;
    if t.is_empty() {
        return Some(vec![]);
    }
    t.split(", ").map(|e| e.parse().ok()).collect()
}

fn once_map(what: &str, got: Option<Vec<(u32, u64)>>, model: &BTreeMap<u32, u64>, text: &str) {
    let Some(mut got) = got else {
        return v(format!("{what} is malformed: {}", &text[..text.len().min(200)]));
    };
    got.sort();
    if !got.iter().copied().eq(model.iter().map(|(a, b)| (*a, *b))) {
        v(format!("{what} lists {got:?}, the map holds {model:?}"));
    }
}
fn once_set(what: &str, got: Option<Vec<u32>>, model: &BTreeSet<u32>, text: &str) {
    let Some(mut got) = got else {
        return v(format!("{what} is malformed: {}", &text[..text.len().min(200)]));
    };
    got.sort();
    if !got.iter().copied().eq(model.iter().copied()) {
        v(format!("{what} lists {got:?}, the set holds {model:?}"));
    }
}

/// Items with a size hint that may be as wrong as the contract of iterators allows for safe code.
struct Hinted<T>(std::vec::IntoIter<T>, usize, Option<usize>);
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1.min(self.0.len()), self.2)
    }
}

/// Clones of instrumented maps hold their own copies.
fn clones(rng: &mut Rng, n: usize) -> u64 {
    let cfg = Config {
        mode: rng.pick(&[0, 1, 1, 2, 64]),
        cap: rng.pick(&[0, 0, 40]),
        hb: Hb { mode: rng.pick(&[0, 1, 8]), salt: rng.next() },
        batch: rng.pick(&[1, 32]),
        one_shard: false,
        yield_user: false,
        early_drop: false,
        set: false,
        quarantine: false,
    };
    reset();
    alloc::start(true);
    let m = scope(|| build_map(&cfg));
    let at = rng.pick(&[1, 2, 3, 1000]);
    let e0 = EVENTS[0].load(Relaxed);
    for i in 0..n as u32 {
        scope(|| {
            m.pin().insert(Key::new(i), Val::new(i, 0));
        });
        if rng.chance(1, 5) {
            let k = rng.below(i as usize + 1) as u32;
            scope(|| {
                m.pin().remove(&Q(k));
            });
        }
        if EVENTS[0].load(Relaxed) - e0 >= at {
            break;
        }
    }
    let snap = |m: &Map| -> BTreeMap<u32, (u64, u64, u64)> {
        let g = m.guard();
        let r: BTreeMap<_, _> = (0..=n as u32)
            .filter_map(|k| m.get_key_value(&Q(k), &g).map(|(a, b)| (k, (a.uid(), b.uid(), b.parent()))))
            .collect();
        if r.len() != m.len() {
            v(format!("len() = {} but {} keys are found", m.len(), r.len()));
        }
        r
    };
    let src = snap(&m);
    let c = scope(|| m.clone());
    let cs = snap(&c);
    if !src.keys().eq(cs.keys()) {
        v(format!("clone holds keys {:?}, its source {:?}", cs.keys().collect::<Vec<_>>(), src.keys().collect::<Vec<_>>()));
    }
    for (k, (ku, vu, parent)) in &cs {
        if let Some((sk, sv, _)) = src.get(k) {
            if parent != sv {
                v(format!("the clone of k{k} was made from v{parent}, not v{sv}"));
            }
            if ku == sk || vu == sv {
                v(format!("clone and source share the objects of k{k}"));
            }
        }
    }
    // Independent.
    let k0 = rng.below(n.max(1)) as u32;
    scope(|| {
        c.pin().remove(&Q(k0));
        c.pin().insert(Key::new(n as u32), Val::new(n as u32, 0));
    });
    if snap(&m) != src {
        v("changing a clone changed its source".into());
    }
    let cs = snap(&c);
    let c2 = scope(|| c.clone());
    scope(|| m.pin().clear());
    if snap(&c) != cs {
        v("clearing the source changed its clone".into());
    }
    scope(|| drop(m));
    if snap(&c) != cs {
        v("dropping the source changed its clone".into());
    }
    scope(|| drop(c));
    snap(&c2);
    scope(|| drop(c2));
    let l = leaked().len();
    if l > 0 {
        violation("LEAK", format!("{l} keys/values of clones were never dropped"));
    }
    let r = alloc::stop();
    if r.double_free > 0 {
        violation("C05", "blocks of clones were freed twice".into());
    }
    src.len() as u64
}

pub fn run(seed: u64) -> CaseOut {
    let mut rng = Rng::new(seed);
    YIELD_USER.store(false, Relaxed);
    let n = rng.pick(&[0, 1, 2, 3, 5, 8, 12, 20, 30, 50, 100, 250, 900]);
    let (e0, e1) = (EVENTS[0].load(Relaxed), EVENTS[1].load(Relaxed));
    let (m, s, model) = source(&mut rng, n);
    let mid = (EVENTS[0].load(Relaxed) - e0 > EVENTS[1].load(Relaxed) - e1) as u64;
    let elems: BTreeSet<u32> = model.keys().copied().collect();
    let mut checks = 0u64;

    // In a random order, since every one of them may finish the resize.
    let mut order: Vec<usize> = (0..9).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i + 1));
    }
    for o in order {
        checks += 1;
        match o {
            0 => {
                let c = m.clone();
                if contents(&c) != model {
                    v(format!("a clone holds {:?}, its source {model:?}", contents(&c)));
                }
                if !(c == m && m == c) {
                    v("a clone does not equal its source".into());
                }
                let c = s.clone();
                if contents_set(&c) != elems {
                    v(format!("a cloned set holds {:?}, its source {elems:?}", contents_set(&c)));
                }
                if !(c == s && s == c) {
                    v("a cloned set does not equal its source".into());
                }
            }
            1 => {
                let t = if rng.chance(1, 2) { format!("{m:?}") } else { format!("{:?}", m.pin()) };
                once_map("Debug output", parse_debug_map(&t), &model, &t);
                let t = if rng.chance(1, 2) { format!("{s:?}") } else { format!("{:?}", s.pin_owned()) };
                once_set("Debug output of a set", parse_list(&t, '{', '}'), &elems, &t);
                let p = m.pin();
                let t = format!("{:?}", p.keys());
                // An iterator's output may name its type, so only demand the entries if it is a list.
                if t.starts_with('[') {
                    once_set("Debug output of keys()", parse_list(&t, '[', ']'), &elems, &t);
                }
            }
            2 => {
                let t = match rng.below(3) {
                    0 => serde_json::to_string(&m),
                    1 => serde_json::to_string(&m.pin()),
                    _ => serde_json::to_string(&m.pin_owned()),
                };
                let t = match t {
                    Ok(t) => t,
                    Err(e) => {
                        v(format!("serialisation failed: {e}"));
                        continue;
                    }
                };
                // Count the entries in the text itself: a parser would hide duplicates.
                let inner = t.trim_start_matches('{').trim_end_matches('}');
                let got: Option<Vec<(u32, u64)>> = if inner.is_empty() {
                    Some(vec![])
                } else {
                    inner
                        .split(',')
                        .map(|e| {
                            let (a, b) = e.split_once(':')?;
                            Some((a.trim_matches('"').parse().ok()?, b.parse().ok()?))
                        })
                        .collect()
                };
                once_map("serialised form", got, &model, &t);
                match serde_json::from_str::<M>(&t) {
                    Ok(back) => {
                        if contents(&back) != model {
                            v(format!("deserialised {:?}, expected {model:?}", contents(&back)));
                        }
                    }
                    Err(e) => v(format!("cannot deserialise what was serialised: {e}")),
                }
            }
            3 => {
                let t = if rng.chance(1, 2) { serde_json::to_string(&s) } else { serde_json::to_string(&s.pin()) };
                let t = t.unwrap_or_default();
                once_set("serialised set", parse_list(&t.replace(',', ", "), '[', ']'), &elems, &t);
                match serde_json::from_str::<S>(&t) {
                    Ok(back) => {
                        if contents_set(&back) != elems {
                            v(format!("deserialised set {:?}, expected {elems:?}", contents_set(&back)));
                        }
                    }
                    Err(e) => v(format!("cannot deserialise a serialised set: {e}")),
                }
            }
            4 | 5 => {
                // Equality against a variation built in another configuration.
                let h = hb(&mut rng);
                let mut want = model.clone();
                let change = rng.below(6);
                let pick = model.keys().nth(rng.below(model.len().max(1))).copied();
                match (change, pick) {
                    (0 | 1, _) => {}
                    (2, Some(k)) => {
                        want.remove(&k);
                    }
                    (3, Some(k)) => {
                        *want.get_mut(&k).unwrap() ^= 1;
                    }
                    (4, Some(k)) => {
                        // Same size, other key.
                        let x = want.remove(&k).unwrap();
                        want.insert(1 << 20, x);
                    }
                    _ => {
                        want.insert(1 << 21, 5);
                    }
                }
                let other: M = papaya::HashMap::<u32, u64>::builder()
                    .hasher(Pb(h))
                    .resize_mode(resize_mode(rng.pick(&[0, 1, 64])))
                    .capacity(rng.pick(&[0, 3, 500]))
                    .build();
                let mut ks: Vec<u32> = want.keys().copied().collect();
                for i in (1..ks.len()).rev() {
                    ks.swap(i, rng.below(i + 1));
                }
                let os: S = papaya::HashSet::<u32>::builder().hasher(Pb(h)).resize_mode(resize_mode(1)).build();
                for k in ks {
                    other.pin().insert(k, want[&k]);
                    os.pin().insert(k);
                }
                let eq = want == model;
                if (m == other) != eq || (other == m) != eq {
                    v(format!("maps {model:?} and {want:?} compare as {} / {}", m == other, other == m));
                }
                let es: BTreeSet<u32> = want.keys().copied().collect();
                let eq = es == elems;
                if (s == os) != eq || (os == s) != eq {
                    v(format!("sets {elems:?} and {es:?} compare as {} / {}", s == os, os == s));
                }
            }
            8 => {
                use serde::Serialize;
                let n = model.len();
                announced("a map", m.serialize(prefixed::Top), n);
                announced("a pinned map", m.pin_owned().serialize(prefixed::Top), n);
                announced("a set", s.serialize(prefixed::Top), n);
                announced("a pinned set", s.pin().serialize(prefixed::Top), n);
                let (p, q) = (m.pin(), s.pin());
                hinted("iter()", p.iter(), n);
                hinted("keys()", p.keys(), n);
                hinted("values()", p.values(), n);
                hinted("a set's iter()", q.iter(), n);
                hinted("a loop over a pinned map", (&p).into_iter(), n);
                hinted("a loop over a pinned set", (&q).into_iter(), n);
            }
            6 => {
                // Collecting and extending: the last value of a key counts.
                let len = rng.pick(&[0, 1, 2, 7, 30, 200]);
                let space = rng.pick(&[1, 3, 20, 300]);
                let items: Vec<(u32, u64)> = (0..len).map(|_| (rng.below(space) as u32, rng.next() >> 40)).collect();
                let want: BTreeMap<u32, u64> = items.iter().copied().collect();
                let low = rng.pick(&[0, 1, 1000]);
                let hinted = Hinted(items.clone().into_iter(), low, None);
                let c: M = hinted.collect();
                if contents(&c) != want {
                    v(format!("collecting {items:?} gave {:?}", contents(&c)));
                }
                let hinted = Hinted(items.iter().map(|x| x.0).collect::<Vec<_>>().into_iter(), low, None);
                let cs: S = hinted.collect();
                if contents_set(&cs) != want.keys().copied().collect() {
                    v(format!("collecting the keys of {items:?} gave {:?}", contents_set(&cs)));
                }
                let more: Vec<(u32, u64)> = (0..rng.pick(&[0, 1, 5, 60])).map(|_| (rng.below(space * 2) as u32, rng.next() >> 40)).collect();
                let mut want = want;
                want.extend(more.iter().copied());
                {
                    let mut r = &c;
                    if rng.chance(1, 2) {
                        r.extend(Hinted(more.clone().into_iter(), low, None));
                    } else {
                        r.extend(more.iter().map(|(a, b)| (a, b)));
                    }
                    let mut r = &cs;
                    if rng.chance(1, 2) {
                        r.extend(more.iter().map(|x| x.0));
                    } else {
                        r.extend(more.iter().map(|x| &x.0));
                    }
                }
                if contents(&c) != want {
                    v(format!("extending with {more:?} gave {:?}, expected {want:?}", contents(&c)));
                }
                if contents_set(&cs) != want.keys().copied().collect() {
                    v(format!("extending a set with {more:?} gave {:?}", contents_set(&cs)));
                }
                // Extending a map with a history.
                let mut want = model.clone();
                want.extend(items.iter().copied());
                let c = m.clone();
                (&c).extend(items.iter().copied());
                if contents(&c) != want {
                    v(format!("extending {model:?} with {items:?} gave {:?}", contents(&c)));
                }
            }
            _ => {
                let a: [(u32, u64); 9] = std::array::from_fn(|_| (rng.below(6) as u32, rng.next() >> 40));
                let want: BTreeMap<u32, u64> = a.into_iter().collect();
                let c: papaya::HashMap<u32, u64> = a.into();
                let g = c.guard();
                let got: BTreeMap<u32, u64> = c.iter(&g).map(|(a, b)| (*a, *b)).collect();
                if got != want || c.len() != want.len() {
                    v(format!("the array {a:?} became {got:?}"));
                }
                let c: papaya::HashSet<u32> = a.map(|x| x.0).into();
                let g = c.guard();
                let got: BTreeSet<u32> = c.iter(&g).copied().collect();
                if got != want.keys().copied().collect() || c.len() != want.len() {
                    v(format!("the keys of the array {a:?} became {got:?}"));
                }
                // Duplicates in serialised input.
                let t = format!(
                    "{{{}}}",
                    a.iter().map(|(k, x)| format!("\"{k}\":{x}")).collect::<Vec<_>>().join(",")
                );
                match serde_json::from_str::<M>(&t) {
                    Ok(c) if contents(&c) == want => {}
                    Ok(c) => v(format!("{t} was deserialised to {:?}", contents(&c))),
                    Err(e) => v(format!("{t} cannot be deserialised: {e}")),
                }
                // The same from a format that announces the number of entries.
                type E = serde::de::value::Error;
                match M::deserialize(MapDeserializer::<_, E>::new(a.iter().copied())) {
                    Ok(c) if contents(&c) == want => {}
                    Ok(c) => v(format!("{a:?} was deserialised to {:?}", contents(&c))),
                    Err(e) => v(format!("{a:?} cannot be deserialised: {e}")),
                }
                match S::deserialize(SeqDeserializer::<_, E>::new(a.iter().map(|x| x.0))) {
                    Ok(c) if contents_set(&c) == want.keys().copied().collect() => {}
                    Ok(c) => v(format!("the keys of {a:?} were deserialised to {:?}", contents_set(&c))),
                    Err(e) => v(format!("the keys of {a:?} cannot be deserialised: {e}")),
                }
                // Through a tree of values, which announces the number of entries as well.
                match serde_json::to_value(&m).and_then(serde_json::from_value::<M>) {
                    Ok(c) if contents(&c) == model => {}
                    Ok(c) => v(format!("a map came back as {:?}, it was {model:?}", contents(&c))),
                    Err(e) => v(format!("a map cannot be turned into a tree and back: {e}")),
                }
                match serde_json::to_value(&s).and_then(serde_json::from_value::<S>) {
                    Ok(c) if contents_set(&c) == elems => {}
                    Ok(c) => v(format!("a set came back as {:?}, it was {elems:?}", contents_set(&c))),
                    Err(e) => v(format!("a set cannot be turned into a tree and back: {e}")),
                }
                // What is not a map or set of these types is refused as a whole.
                let cut = &t[..rng.below(t.len())];
                let bad = t.replacen(':', if rng.chance(1, 2) { ":-" } else { ":\"\"," }, 1);
                for t in [cut, &bad[..], "[]", "3", "{\"1\":2,\"x\":3}"] {
                    if let Ok(c) = serde_json::from_str::<M>(t) {
                        v(format!("{t} was deserialised to {:?}", contents(&c)));
                    }
                }
                for t in ["[1,2", "[1,-2]", "[1,\"x\",2]", "{}", "null"] {
                    if let Ok(c) = serde_json::from_str::<S>(t) {
                        v(format!("{t} was deserialised to {:?}", contents_set(&c)));
                    }
                }
                let t = format!("[{}]", a.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","));
                match serde_json::from_str::<S>(&t) {
                    Ok(c) if contents_set(&c) == want.keys().copied().collect() => {}
                    Ok(c) => v(format!("{t} was deserialised to {:?}", contents_set(&c))),
                    Err(e) => v(format!("{t} cannot be deserialised: {e}")),
                }
            }
        }
    }
    // The sources are what they were.
    if contents(&m) != model || contents_set(&s) != elems {
        v("a conversion changed its source".into());
    }
    let cloned = unscoped(|| clones(&mut rng, n.min(250)));
    CaseOut {
        hash: seed,
        nontrivial: model.len() > 1,
        sample: Some(json!({"seed": seed, "entries": model.len(), "resize_in_progress": mid})),
        counters: vec![
            ("conversions_checked", checks),
            ("entries_converted", model.len() as u64),
            ("sources_with_resize_in_progress", mid),
            ("instrumented_entries_cloned", cloned),
        ],
    }
}

//! One interface over the ways of accessing a map.
use crate::types::*;
use papaya::{Compute, Guard, HashMapRef, Operation};

pub type Map = papaya::HashMap<Key, Val, Hb>;
pub type Set = papaya::HashSet<Key, Hb>;
pub type Entry<'a> = (&'a Key, &'a Val);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Walk {
    Iter,
    Keys,
    Values,
    IntoIter,
}

pub trait Api: Sized {
    fn get(&self, q: Q) -> Option<&Val>;
    fn get_by_key(&self, k: &Key) -> Option<&Val>;
    fn get_kv(&self, q: Q) -> Option<Entry<'_>>;
    fn contains(&self, q: Q) -> bool;
    fn insert(&self, k: Key, v: Val) -> Option<&Val>;
    fn try_insert(&self, k: Key, v: Val) -> Result<&Val, (&Val, Val)>;
    fn try_insert_with(&self, k: Key, f: impl FnOnce() -> Val) -> Result<&Val, &Val>;
    fn get_or_insert(&self, k: Key, v: Val) -> &Val;
    fn get_or_insert_with(&self, k: Key, f: impl FnOnce() -> Val) -> &Val;
    fn update(&self, k: Key, f: impl Fn(&Val) -> Val) -> Option<&Val>;
    fn update_or_insert(&self, k: Key, f: impl Fn(&Val) -> Val, v: Val) -> &Val;
    fn update_or_insert_with(&self, k: Key, u: impl Fn(&Val) -> Val, f: impl FnOnce() -> Val)
        -> &Val;
    fn compute<'a>(
        &'a self,
        k: Key,
        f: impl FnMut(Option<Entry<'a>>) -> Operation<Val, u64>,
    ) -> Compute<'a, Key, Val, u64>;
    fn remove(&self, q: Q) -> Option<&Val>;
    fn remove_entry(&self, q: Q) -> Option<Entry<'_>>;
    fn remove_if(
        &self,
        q: Q,
        f: impl FnMut(&Key, &Val) -> bool,
    ) -> Result<Option<Entry<'_>>, Entry<'_>>;
    fn clear(&self);
    fn retain(&self, f: impl FnMut(&Key, &Val) -> bool);
    fn reserve(&self, n: usize);
    fn walk<'a>(
        &'a self,
        w: Walk,
        created: &mut dyn FnMut(),
        f: &mut dyn FnMut(Option<&'a Key>, Option<&'a Val>),
    );
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
}

pub struct ByRef<'m, G>(pub HashMapRef<'m, Key, Val, Hb, G>);
pub struct ByGuard<'m, G> {
    pub m: &'m Map,
    pub g: G,
}

macro_rules! api {
    ($me:ident, $ty:ty, $m:expr, [$($g:expr)?], $retain:expr, $into:expr) => {
        impl<'m, G: Guard> Api for $ty {
            #[inline]
            fn get(&self, q: Q) -> Option<&Val> {
                let $me = self;
                $m.get(&q, $($g)?)
            }
            fn get_by_key(&self, k: &Key) -> Option<&Val> {
                let $me = self;
                $m.get(k, $($g)?)
            }
            fn get_kv(&self, q: Q) -> Option<Entry<'_>> {
                let $me = self;
                $m.get_key_value(&q, $($g)?)
            }
            fn contains(&self, q: Q) -> bool {
                let $me = self;
                $m.contains_key(&q, $($g)?)
            }
            fn insert(&self, k: Key, v: Val) -> Option<&Val> {
                let $me = self;
                $m.insert(k, v, $($g)?)
            }
            fn try_insert(&self, k: Key, v: Val) -> Result<&Val, (&Val, Val)> {
                let $me = self;
                $m.try_insert(k, v, $($g)?).map_err(|e| (e.current, e.not_inserted))
            }
            fn try_insert_with(&self, k: Key, f: impl FnOnce() -> Val) -> Result<&Val, &Val> {
                let $me = self;
                $m.try_insert_with(k, f, $($g)?)
            }
            fn get_or_insert(&self, k: Key, v: Val) -> &Val {
                let $me = self;
                $m.get_or_insert(k, v, $($g)?)
            }
            fn get_or_insert_with(&self, k: Key, f: impl FnOnce() -> Val) -> &Val {
                let $me = self;
                $m.get_or_insert_with(k, f, $($g)?)
            }
            fn update(&self, k: Key, f: impl Fn(&Val) -> Val) -> Option<&Val> {
                let $me = self;
                $m.update(k, f, $($g)?)
            }
            fn update_or_insert(&self, k: Key, f: impl Fn(&Val) -> Val, v: Val) -> &Val {
                let $me = self;
                $m.update_or_insert(k, f, v, $($g)?)
            }
            fn update_or_insert_with(
                &self,
                k: Key,
                u: impl Fn(&Val) -> Val,
                f: impl FnOnce() -> Val,
            ) -> &Val {
                let $me = self;
                $m.update_or_insert_with(k, u, f, $($g)?)
            }
            fn compute<'a>(
                &'a self,
                k: Key,
                f: impl FnMut(Option<Entry<'a>>) -> Operation<Val, u64>,
            ) -> Compute<'a, Key, Val, u64> {
                let $me = self;
                $m.compute(k, f, $($g)?)
            }
            fn remove(&self, q: Q) -> Option<&Val> {
                let $me = self;
                $m.remove(&q, $($g)?)
            }
            fn remove_entry(&self, q: Q) -> Option<Entry<'_>> {
                let $me = self;
                $m.remove_entry(&q, $($g)?)
            }
            fn remove_if(
                &self,
                q: Q,
                f: impl FnMut(&Key, &Val) -> bool,
            ) -> Result<Option<Entry<'_>>, Entry<'_>> {
                let $me = self;
                $m.remove_if(&q, f, $($g)?)
            }
            fn clear(&self) {
                let $me = self;
                $m.clear($($g)?)
            }
            fn retain(&self, f: impl FnMut(&Key, &Val) -> bool) {
                ($retain)(self, f)
            }
            fn reserve(&self, n: usize) {
                let $me = self;
                $m.reserve(n, $($g)?)
            }
            fn walk<'a>(
                &'a self,
                w: Walk,
                created: &mut dyn FnMut(),
                f: &mut dyn FnMut(Option<&'a Key>, Option<&'a Val>),
            ) {
                let $me = self;
                match w {
                    Walk::Iter => {
                        let it = $m.iter($($g)?);
                        created();
                        for (k, v) in it {
                            f(Some(k), Some(v));
                        }
                    }
                    Walk::Keys => {
                        let it = $m.keys($($g)?);
                        created();
                        for k in it {
                            f(Some(k), None);
                        }
                    }
                    Walk::Values => {
                        let it = $m.values($($g)?);
                        created();
                        for v in it {
                            f(None, Some(v));
                        }
                    }
                    Walk::IntoIter => {
                        let it = ($into)(self);
                        created();
                        for (k, v) in it {
                            f(Some(k), Some(v));
                        }
                    }
                }
            }
            fn len(&self) -> usize {
                let $me = self;
                $m.len()
            }
            fn is_empty(&self) -> bool {
                let $me = self;
                $m.is_empty()
            }
        }
    };
}

fn ref_retain<G: Guard>(s: &ByRef<'_, G>, f: impl FnMut(&Key, &Val) -> bool) {
    let mut r = s.0.map().pin();
    r.retain(f);
}
fn guard_retain<G: Guard>(s: &ByGuard<'_, G>, f: impl FnMut(&Key, &Val) -> bool) {
    s.m.retain(f, &s.g);
}
fn ref_into<'a, G: Guard>(s: &'a ByRef<'_, G>) -> papaya::Iter<'a, Key, Val, G> {
    (&s.0).into_iter()
}
fn guard_into<'a, G: Guard>(s: &'a ByGuard<'_, G>) -> papaya::Iter<'a, Key, Val, G> {
    s.m.iter(&s.g)
}

api!(me, ByRef<'m, G>, me.0, [], ref_retain, ref_into);
api!(me, ByGuard<'m, G>, me.m, [&me.g], guard_retain, guard_into);

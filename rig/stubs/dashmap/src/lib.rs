//! The part of dashmap that is used here, as one shard: a map under a lock of mc-sync.
use mc_sync::{Mutex, MutexGuard};
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::Hash;
use std::ops::{Deref, DerefMut};

pub struct DashMap<K, V>(Mutex<HashMap<K, V>>);

type Guard<'a, K, V> = MutexGuard<'a, HashMap<K, V>>;

impl<K: Eq + Hash, V> Default for DashMap<K, V> {
  fn default() -> Self {
    Self::new()
  }
}

impl<K: Eq + Hash, V> DashMap<K, V> {
  pub fn new() -> Self {
    Self(Mutex::new(HashMap::new()))
  }
  fn l(&self) -> Guard<'_, K, V> {
    self.0.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
  }
  pub fn len(&self) -> usize {
    self.l().len()
  }
  pub fn is_empty(&self) -> bool {
    self.l().is_empty()
  }
  pub fn insert(&self, k: K, v: V) -> Option<V> {
    self.l().insert(k, v)
  }
  pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
  where
    K: Borrow<Q>,
  {
    self.l().contains_key(k)
  }
  pub fn remove<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(K, V)>
  where
    K: Borrow<Q>,
  {
    self.l().remove_entry(k)
  }
  pub fn clear(&self) {
    self.l().clear();
  }
  pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
    self.l().retain(|k, v| f(k, v));
  }
  pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<mapref::one::Ref<'_, K, V>>
  where
    K: Borrow<Q>,
  {
    let g = self.l();
    let (k, v) = g.get_key_value(k).map(|(k, v)| (k as *const K, v as *const V))?;
    Some(mapref::one::Ref { _g: g, k, v })
  }
  pub fn get_mut<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<mapref::one::RefMut<'_, K, V>>
  where
    K: Borrow<Q>,
  {
    let mut g = self.l();
    let k2 = g.get_key_value(k).map(|(k, _)| k as *const K)?;
    let v = g.get_mut(k)? as *mut V;
    Some(mapref::one::RefMut { _g: g, k: k2, v })
  }
  pub fn entry(&self, k: K) -> mapref::entry::Entry<'_, K, V> {
    let g = self.l();
    if g.contains_key(&k) {
      mapref::entry::Entry::Occupied(mapref::entry::OccupiedEntry { g, k })
    } else {
      mapref::entry::Entry::Vacant(mapref::entry::VacantEntry { g, k })
    }
  }
}

pub mod mapref {
  use super::{Deref, DerefMut, Guard};
  use std::hash::Hash;
  pub mod one {
    use super::{Deref, DerefMut, Guard};
    pub struct Ref<'a, K, V> {
      pub(crate) _g: Guard<'a, K, V>,
      pub(crate) k: *const K,
      pub(crate) v: *const V,
    }
    impl<K, V> Ref<'_, K, V> {
      pub fn key(&self) -> &K {
        unsafe { &*self.k }
      }
      pub fn value(&self) -> &V {
        unsafe { &*self.v }
      }
      pub fn pair(&self) -> (&K, &V) {
        (self.key(), self.value())
      }
    }
    impl<K, V> Deref for Ref<'_, K, V> {
      type Target = V;
      fn deref(&self) -> &V {
        self.value()
      }
    }
    pub struct RefMut<'a, K, V> {
      pub(crate) _g: Guard<'a, K, V>,
      pub(crate) k: *const K,
      pub(crate) v: *mut V,
    }
    impl<K, V> RefMut<'_, K, V> {
      pub fn key(&self) -> &K {
        unsafe { &*self.k }
      }
      pub fn value(&self) -> &V {
        unsafe { &*self.v }
      }
      pub fn value_mut(&mut self) -> &mut V {
        unsafe { &mut *self.v }
      }
    }
    impl<K, V> Deref for RefMut<'_, K, V> {
      type Target = V;
      fn deref(&self) -> &V {
        self.value()
      }
    }
    impl<K, V> DerefMut for RefMut<'_, K, V> {
      fn deref_mut(&mut self) -> &mut V {
        self.value_mut()
      }
    }
  }
  pub mod entry {
    use super::one::RefMut;
    use super::{Guard, Hash};
    pub enum Entry<'a, K, V> {
      Occupied(OccupiedEntry<'a, K, V>),
      Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
      pub(crate) g: Guard<'a, K, V>,
      pub(crate) k: K,
    }
    pub struct VacantEntry<'a, K, V> {
      pub(crate) g: Guard<'a, K, V>,
      pub(crate) k: K,
    }
    impl<'a, K: Eq + Hash, V> OccupiedEntry<'a, K, V> {
      pub fn get(&self) -> &V {
        &self.g[&self.k]
      }
      pub fn get_mut(&mut self) -> &mut V {
        self.g.get_mut(&self.k).unwrap()
      }
      pub fn key(&self) -> &K {
        &self.k
      }
      pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
      }
      pub fn remove(mut self) -> V {
        self.g.remove(&self.k).unwrap()
      }
      pub fn into_ref(mut self) -> RefMut<'a, K, V> {
        let k = self.g.get_key_value(&self.k).map(|(k, _)| k as *const K).unwrap();
        let v = self.g.get_mut(&self.k).unwrap() as *mut V;
        RefMut { _g: self.g, k, v }
      }
    }
    impl<'a, K: Eq + Hash + Clone, V> VacantEntry<'a, K, V> {
      pub fn insert(mut self, v: V) -> RefMut<'a, K, V> {
        self.g.insert(self.k.clone(), v);
        OccupiedEntry { g: self.g, k: self.k }.into_ref()
      }
      pub fn key(&self) -> &K {
        &self.k
      }
      pub fn into_key(self) -> K {
        self.k
      }
    }
    impl<'a, K: Eq + Hash + Clone, V> Entry<'a, K, V> {
      pub fn key(&self) -> &K {
        match self {
          Self::Occupied(e) => &e.k,
          Self::Vacant(e) => &e.k,
        }
      }
      pub fn or_insert(self, v: V) -> RefMut<'a, K, V> {
        self.or_insert_with(|| v)
      }
      pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
        match self {
          Self::Occupied(e) => e.into_ref(),
          Self::Vacant(e) => e.insert(f()),
        }
      }
      pub fn or_default(self) -> RefMut<'a, K, V>
      where
        V: Default,
      {
        self.or_insert_with(V::default)
      }
      pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
        if let Self::Occupied(e) = &mut self {
          f(e.get_mut());
        }
        self
      }
    }
  }
}

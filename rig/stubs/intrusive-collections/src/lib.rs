//! Offline stand-in for intrusive-collections 0.9.7: the list operations the code uses, over boxed
//! nodes whose addresses do not change.
use std::collections::VecDeque;
#[derive(Default)]
pub struct LinkedListLink;
impl LinkedListLink {
  pub const fn new() -> Self { Self }
}
pub trait Adapter: Default { type Value; }
pub struct LinkedList<A: Adapter>(VecDeque<Box<A::Value>>);
unsafe impl<A: Adapter> Send for LinkedList<A> where A::Value: Send {}
impl<A: Adapter> Default for LinkedList<A> {
  fn default() -> Self { Self(VecDeque::new()) }
}
pub struct Cursor<'a, T>(Option<&'a T>);
impl<'a, T> Cursor<'a, T> {
  pub fn get(&self) -> Option<&'a T> { self.0 }
}
impl<A: Adapter> LinkedList<A> {
  pub fn is_empty(&self) -> bool { self.0.is_empty() }
  pub fn front(&self) -> Cursor<'_, A::Value> { Cursor(self.0.front().map(|b| &**b)) }
  pub fn pop_front(&mut self) -> Option<Box<A::Value>> { self.0.pop_front() }
  pub fn pop_back(&mut self) -> Option<Box<A::Value>> { self.0.pop_back() }
  pub fn push_front(&mut self, b: Box<A::Value>) { self.0.push_front(b); }
  pub fn push_back(&mut self, b: Box<A::Value>) { self.0.push_back(b); }
}
#[macro_export]
macro_rules! intrusive_adapter {
  ($name:ident<$t:ident> = Box<$v:ty> : $v2:ty { $link:ident : LinkedListLink }) => {
    struct $name<$t>(std::marker::PhantomData<$t>);
    impl<$t> Default for $name<$t> { fn default() -> Self { Self(std::marker::PhantomData) } }
    impl<$t> $crate::Adapter for $name<$t> { type Value = $v; }
  };
}
#[macro_export]
macro_rules! offset_of {
  ($c:path, $f:ident) => { ::std::mem::offset_of!($c, $f) };
}

// Reference models of the standard-library combinators used by the fall workspace.  Compiled by
// the fact extractor; the abstract interpreter inlines them instead of the real std bodies.
#![allow(dead_code)]
pub trait It { type Item; fn next(&mut self) -> Option<Self::Item>; }

pub struct SliceIter<'a, T> { pub s: &'a [T], pub pos: usize }
impl<'a, T> It for SliceIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.pos < self.s.len() { let r = &self.s[self.pos]; self.pos += 1; Some(r) } else { None }
    }
}
pub struct VecIter<'a, T: Copy> { pub s: &'a [T], pub pos: usize }
impl<'a, T: Copy> It for VecIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.pos < self.s.len() { let r = self.s[self.pos]; self.pos += 1; Some(r) } else { None }
    }
}
pub struct RangeIter { pub start: usize, pub end: usize }
impl It for RangeIter {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.start < self.end { let r = self.start; self.start += 1; Some(r) } else { None }
    }
}
pub struct RangeIncl { pub start: usize, pub end: usize, pub done: bool }
impl It for RangeIncl {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.start <= self.end { let r = self.start; self.start += 1; Some(r) } else { None }
    }
}
pub struct RangeFromIter { pub start: u64 }
impl It for RangeFromIter {
    type Item = u64;
    fn next(&mut self) -> Option<u64> { let r = self.start; self.start += 1; Some(r) }
}
pub struct OptIter<T> { pub o: Option<T> }
impl<T> It for OptIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { let r = std::mem::replace(&mut self.o, None); r }
}
pub struct Map<I, F> { pub it: I, pub f: F }
impl<I: It, B, F: FnMut(I::Item) -> B> It for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } }
}
pub struct Filter<I, F> { pub it: I, pub f: F }
impl<I: It, F: FnMut(&I::Item) -> bool> It for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop { match self.it.next() { Some(x) => if (self.f)(&x) { return Some(x) }, None => return None } }
    }
}
pub struct FilterMap<I, F> { pub it: I, pub f: F }
impl<I: It, B, F: FnMut(I::Item) -> Option<B>> It for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop { match self.it.next() { Some(x) => if let Some(b) = (self.f)(x) { return Some(b) }, None => return None } }
    }
}
pub struct TakeWhile<I, F> { pub it: I, pub f: F, pub done: bool }
impl<I: It, F: FnMut(&I::Item) -> bool> It for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None }
        match self.it.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None }
    }
}
pub struct SkipWhile<I, F> { pub it: I, pub f: F, pub done: bool }
impl<I: It, F: FnMut(&I::Item) -> bool> It for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop { match self.it.next() { Some(x) => if self.done || !(self.f)(&x) { self.done = true; return Some(x) }, None => return None } }
    }
}
pub struct Skip<I> { pub it: I, pub n: usize }
impl<I: It> It for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.n > 0 { self.n -= 1; if self.it.next().is_none() { return None } }
        self.it.next()
    }
}
pub struct Take<I> { pub it: I, pub n: usize }
impl<I: It> It for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n > 0 { self.n -= 1; self.it.next() } else { None }
    }
}
pub struct Enumerate<I> { pub it: I, pub n: usize }
impl<I: It> It for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() { Some(x) => { let i = self.n; self.n += 1; Some((i, x)) } None => None }
    }
}
pub struct Zip<I, J> { pub a: I, pub b: J }
impl<I: It, J: It> It for Zip<I, J> {
    type Item = (I::Item, J::Item);
    fn next(&mut self) -> Option<(I::Item, J::Item)> {
        match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
    }
}
pub struct Chain<I, J> { pub a: I, pub b: J, pub second: bool }
impl<I: It, J: It<Item = I::Item>> It for Chain<I, J> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if !self.second { match self.a.next() { Some(x) => return Some(x), None => self.second = true } }
        self.b.next()
    }
}
pub struct Cloned<I> { pub it: I }
impl<'a, T: Copy + 'a, I: It<Item = &'a T>> It for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.it.next() { Some(x) => Some(*x), None => None } }
}
pub struct ByRef<'a, I> { pub it: &'a mut I }
impl<'a, I: It> It for ByRef<'a, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next() }
}
pub struct Peekable<I: It> { pub it: I, pub peeked: Option<Option<I::Item>> }
impl<I: It> It for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match std::mem::replace(&mut self.peeked, None) { Some(v) => v, None => self.it.next() }
    }
}
// ---- consumers
pub fn it_find<I: It, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    loop { match it.next() { Some(x) => if f(&x) { return Some(x) }, None => return None } }
}
pub fn it_find_map<I: It, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    loop { match it.next() { Some(x) => if let Some(b) = f(x) { return Some(b) }, None => return None } }
}
pub fn it_position<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    loop { match it.next() { Some(x) => if f(x) { return Some(i) } else { i += 1 }, None => return None } }
}
pub fn it_any<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop { match it.next() { Some(x) => if f(x) { return true }, None => return false } }
}
pub fn it_all<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop { match it.next() { Some(x) => if !f(x) { return false }, None => return true } }
}
pub fn it_count<I: It>(mut it: I) -> usize {
    let mut n = 0;
    loop { match it.next() { Some(_) => n += 1, None => return n } }
}
pub fn it_nth<I: It>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 { k -= 1; if it.next().is_none() { return None } }
    it.next()
}
pub fn it_last<I: It>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    loop { match it.next() { Some(x) => r = Some(x), None => return r } }
}
pub fn it_for_each<I: It, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    loop { match it.next() { Some(x) => f(x), None => return } }
}
pub fn it_fold<I: It, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop { match it.next() { Some(x) => acc = f(acc, x), None => return acc } }
}
pub fn it_collect_vec<I: It>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    loop { match it.next() { Some(x) => v.push(x), None => return v } }
}
pub fn it_collect_res<I: It<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    loop { match it.next() { Some(Ok(x)) => v.push(x), Some(Err(e)) => return Err(e), None => return Ok(v) } }
}
pub fn it_drain<I: It>(mut it: I) {
    loop { match it.next() { Some(_x) => (), None => return } }
}
pub fn vec_extend<I: It>(v: &mut Vec<I::Item>, mut it: I) {
    loop { match it.next() { Some(x) => v.push(x), None => return } }
}
// ---- Option
pub fn option_is_some<T>(o: &Option<T>) -> bool { match *o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match *o { Some(_) => false, None => true } }
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn option_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => panic!() } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn option_as_ref<T>(o: &Option<T>) -> Option<&T> { match *o { Some(ref x) => Some(x), None => None } }
pub fn option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match *o { Some(ref mut x) => Some(x), None => None } }
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn option_branch<T>(o: Option<T>) -> std::ops::ControlFlow<Option<std::convert::Infallible>, T> {
    match o { Some(x) => std::ops::ControlFlow::Continue(x), None => std::ops::ControlFlow::Break(None) }
}
pub fn option_from_residual<T>(_r: Option<std::convert::Infallible>) -> Option<T> { None }
pub fn result_branch<T, E>(o: Result<T, E>) -> std::ops::ControlFlow<Result<std::convert::Infallible, E>, T> {
    match o { Ok(x) => std::ops::ControlFlow::Continue(x), Err(e) => std::ops::ControlFlow::Break(Err(e)) }
}
pub fn result_from_residual<T, E>(r: Result<std::convert::Infallible, E>) -> Result<T, E> { match r { Err(e) => Err(e), Ok(_) => panic!() } }
pub fn result_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn result_is_ok<T, E>(o: &Result<T, E>) -> bool { match *o { Ok(_) => true, Err(_) => false } }
pub fn result_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
pub fn result_map_err<T, E, G, F: FnOnce(E) -> G>(o: Result<T, E>, f: F) -> Result<T, G> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }
pub fn usize_checked_sub(a: usize, b: usize) -> Option<usize> { if a >= b { Some(a - b) } else { None } }
pub fn usize_saturating_sub(a: usize, b: usize) -> usize { if a >= b { a - b } else { 0 } }
pub fn vec_pop<T>(v: &mut Vec<T>) -> Option<T> { v.pop() }
pub fn slice_get<T>(s: &[T], i: usize) -> Option<&T> { if i < s.len() { Some(&s[i]) } else { None } }
pub fn slice_last<T>(s: &[T]) -> Option<&T> { if 0 < s.len() { Some(&s[s.len() - 1]) } else { None } }
pub fn slice_first<T>(s: &[T]) -> Option<&T> { if 0 < s.len() { Some(&s[0]) } else { None } }

pub fn result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub struct RevSlice<'a, T> { pub s: &'a [T], pub pos: usize }
impl<'a, T> It for RevSlice<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> { if self.pos > 0 { self.pos -= 1; Some(&self.s[self.pos]) } else { None } }
}
pub struct RevVec<'a, T: Copy> { pub s: &'a [T], pub pos: usize }
impl<'a, T: Copy> It for RevVec<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { if self.pos > 0 { self.pos -= 1; Some(self.s[self.pos]) } else { None } }
}
pub struct RevRange { pub start: usize, pub end: usize }
impl It for RevRange {
    type Item = usize;
    fn next(&mut self) -> Option<usize> { if self.start < self.end { self.end -= 1; Some(self.end) } else { None } }
}
pub struct FlatMap<I, J, F> { pub it: I, pub f: F, pub cur: Option<J> }
impl<I: It, J: It, F: FnMut(I::Item) -> J> It for FlatMap<I, J, F> {
    type Item = J::Item;
    fn next(&mut self) -> Option<J::Item> {
        loop {
            if let Some(ref mut c) = self.cur { if let Some(x) = c.next() { return Some(x) } }
            match self.it.next() { Some(x) => self.cur = Some((self.f)(x)), None => return None }
        }
    }
}

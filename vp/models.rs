//! Rust bodies standing in for std combinators that call back into analysed code.
//! Compiled by the same extractor; the engine enters these bodies instead of std's.
#![allow(dead_code, missing_docs)]
use std::collections::HashMap;
use std::hash::Hash;

pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn opt_and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> { match o { Some(_) => b, None => None } }
pub fn opt_or<T>(o: Option<T>, b: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => b } }
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn opt_xor<T>(o: Option<T>, b: Option<T>) -> Option<T> { match (o, b) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None } }
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn opt_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn opt_unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => Default::default() } }
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn opt_zip<T, U>(o: Option<T>, b: Option<U>) -> Option<(T, U)> { match (o, b) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
pub fn opt_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { if let Some(x) = &o { f(x) } o }
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn opt_take_if<T, F: FnOnce(&mut T) -> bool>(o: &mut Option<T>, f: F) -> Option<T> { let b = match o { Some(x) => f(x), None => false }; if b { std::mem::replace(o, None) } else { None } }
pub fn opt_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn opt_insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => loop {} } }
pub fn opt_get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T { if let None = o { *o = Some(v); } match o { Some(x) => x, None => loop {} } }
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if let None = o { *o = Some(f()); } match o { Some(x) => x, None => loop {} } }

pub fn res_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn res_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn res_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn res_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn res_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn res_and<T, E, U>(o: Result<T, E>, b: Result<U, E>) -> Result<U, E> { match o { Ok(_) => b, Err(e) => Err(e) } }
pub fn res_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn res_or<T, E, U>(o: Result<T, E>, b: Result<T, U>) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(_) => b } }
pub fn res_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn res_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn res_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn res_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn res_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn res_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn res_as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn res_as_mut<T, E>(o: &mut Result<T, E>) -> Result<&mut T, &mut E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn res_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn res_unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => Default::default() } }
pub fn res_cloned<T: Clone, E>(o: Result<&T, E>) -> Result<T, E> { match o { Ok(x) => Ok(x.clone()), Err(e) => Err(e) } }
pub fn res_transpose<T, E>(o: Result<Option<T>, E>) -> Option<Result<T, E>> { match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn res_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { if let Err(x) = &o { f(x) } o }
pub fn res_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> { if let Ok(x) = &o { f(x) } o }
pub fn res_flatten<T, E>(o: Result<Result<T, E>, E>) -> Result<T, E> { match o { Ok(x) => x, Err(e) => Err(e) } }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }

// lazy adapters
pub struct Map<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> { type Item = B; fn next(&mut self) -> Option<B> { match self.i.next() { Some(x) => Some((self.f)(x)), None => None } } }
pub fn it_map<B, I: Iterator, F: FnMut(I::Item) -> B>(i: I, f: F) -> Map<I, F> { Map { i, f } }
pub struct Filter<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while let Some(x) = self.i.next() { if (self.f)(&x) { return Some(x); } } None } }
pub fn it_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> Filter<I, F> { Filter { i, f } }
pub struct FilterMap<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> { type Item = B; fn next(&mut self) -> Option<B> { while let Some(x) = self.i.next() { if let Some(y) = (self.f)(x) { return Some(y); } } None } }
pub fn it_filter_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(i: I, f: F) -> FilterMap<I, F> { FilterMap { i, f } }
pub struct Enumerate<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Enumerate<I> { type Item = (usize, I::Item); fn next(&mut self) -> Option<(usize, I::Item)> { match self.i.next() { Some(x) => { let n = self.n; self.n += 1; Some((n, x)) }, None => None } } }
pub fn it_enumerate<I: Iterator>(i: I) -> Enumerate<I> { Enumerate { i, n: 0 } }
pub struct Zip<I, J> { i: I, j: J }
impl<I: Iterator, J: Iterator> Iterator for Zip<I, J> { type Item = (I::Item, J::Item); fn next(&mut self) -> Option<(I::Item, J::Item)> { match self.i.next() { Some(x) => match self.j.next() { Some(y) => Some((x, y)), None => None }, None => None } } }
pub fn it_zip<I: Iterator, J: IntoIterator>(i: I, j: J) -> Zip<I, J::IntoIter> { Zip { i, j: j.into_iter() } }
pub struct Chain<I, J> { i: I, j: J, first: bool }
impl<I: Iterator, J: Iterator<Item = I::Item>> Iterator for Chain<I, J> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.first { if let Some(x) = self.i.next() { return Some(x); } self.first = false; } self.j.next() } }
pub fn it_chain<I: Iterator, J: IntoIterator<Item = I::Item>>(i: I, j: J) -> Chain<I, J::IntoIter> { Chain { i, j: j.into_iter(), first: true } }
pub struct TakeWhile<I, F> { i: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.done { return None; } match self.i.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None } } }
pub fn it_take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> TakeWhile<I, F> { TakeWhile { i, f, done: false } }
pub struct SkipWhile<I, F> { i: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.done { return self.i.next(); } while let Some(x) = self.i.next() { if !(self.f)(&x) { self.done = true; return Some(x); } } None } }
pub fn it_skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> SkipWhile<I, F> { SkipWhile { i, f, done: false } }
pub struct Take<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Take<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.n == 0 { return None; } self.n -= 1; self.i.next() } }
pub fn it_take<I: Iterator>(i: I, n: usize) -> Take<I> { Take { i, n } }
pub struct Skip<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while self.n > 0 { self.n -= 1; if let None = self.i.next() { return None; } } self.i.next() } }
pub fn it_skip<I: Iterator>(i: I, n: usize) -> Skip<I> { Skip { i, n } }
pub struct Cloned<I> { i: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> { type Item = T; fn next(&mut self) -> Option<T> { match self.i.next() { Some(x) => Some(x.clone()), None => None } } }
pub fn it_cloned<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(i: I) -> Cloned<I> { Cloned { i } }
pub struct Peekable<I: Iterator> { i: I, p: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match std::mem::replace(&mut self.p, None) { Some(x) => x, None => self.i.next() } } }
pub fn it_peekable<I: Iterator>(i: I) -> Peekable<I> { Peekable { i, p: None } }
pub fn peek<I: Iterator>(s: &mut Peekable<I>) -> Option<&I::Item> { if let None = s.p { s.p = Some(s.i.next()); } match &s.p { Some(Some(x)) => Some(x), _ => None } }
pub fn peek_next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(s: &mut Peekable<I>, f: F) -> Option<I::Item> { let x = match std::mem::replace(&mut s.p, None) { Some(x) => x, None => s.i.next() }; match x { Some(y) => if f(&y) { Some(y) } else { s.p = Some(Some(y)); None }, None => { s.p = Some(None); None } } }
pub struct Inspect<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match self.i.next() { Some(x) => { (self.f)(&x); Some(x) }, None => None } } }
pub fn it_inspect<I: Iterator, F: FnMut(&I::Item)>(i: I, f: F) -> Inspect<I, F> { Inspect { i, f } }
pub struct FlatMap<I, J, F> { i: I, cur: Option<J>, f: F }
impl<I: Iterator, J: IntoIterator, F: FnMut(I::Item) -> J> Iterator for FlatMap<I, J::IntoIter, F> { type Item = J::Item; fn next(&mut self) -> Option<J::Item> { loop { if let Some(c) = &mut self.cur { if let Some(x) = c.next() { return Some(x); } } match self.i.next() { Some(y) => self.cur = Some((self.f)(y).into_iter()), None => return None } } } }
pub fn it_flat_map<I: Iterator, J: IntoIterator, F: FnMut(I::Item) -> J>(i: I, f: F) -> FlatMap<I, J::IntoIter, F> { FlatMap { i, cur: None, f } }
pub struct FromFn<F> { f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
pub fn it_from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> { FromFn { f } }
pub struct Once<T> { v: Option<T> }
impl<T> Iterator for Once<T> { type Item = T; fn next(&mut self) -> Option<T> { std::mem::replace(&mut self.v, None) } }
pub fn it_once<T>(v: T) -> Once<T> { Once { v: Some(v) } }
pub fn opt_iter<T>(v: Option<T>) -> Once<T> { Once { v } }
pub fn opt_iter_ref<T>(o: &Option<T>) -> Once<&T> { match o { Some(x) => Once { v: Some(x) }, None => Once { v: None } } }
pub fn res_into_iter<T, E>(o: Result<T, E>) -> Once<T> { match o { Ok(x) => Once { v: Some(x) }, Err(_) => Once { v: None } } }

// consumers
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { while let Some(x) = i.next() { if f(x) { return true; } } false }
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { while let Some(x) = i.next() { if !f(x) { return false; } } true }
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = i.next() { if f(&x) { return Some(x); } } None }
pub fn it_find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(i: &mut I, mut f: F) -> Option<B> { while let Some(x) = i.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { let mut n = 0; while let Some(x) = i.next() { if f(x) { return Some(n); } n += 1; } None }
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) { while let Some(x) = i.next() { f(x) } }
pub fn it_try_for_each<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(i: &mut I, mut f: F) -> Result<(), E> { while let Some(x) = i.next() { f(x)?; } Ok(()) }
pub fn it_fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(mut i: I, init: B, mut f: F) -> B { let mut b = init; while let Some(x) = i.next() { b = f(b, x); } b }
pub fn it_try_fold<B, E, I: Iterator, F: FnMut(B, I::Item) -> Result<B, E>>(i: &mut I, init: B, mut f: F) -> Result<B, E> { let mut b = init; while let Some(x) = i.next() { b = f(b, x)?; } Ok(b) }
pub fn it_count<I: Iterator>(mut i: I) -> usize { let mut n = 0; while let Some(_) = i.next() { n += 1; } n }
pub fn it_last<I: Iterator>(mut i: I) -> Option<I::Item> { let mut l = None; while let Some(x) = i.next() { l = Some(x); } l }
pub fn it_nth<I: Iterator>(i: &mut I, mut n: usize) -> Option<I::Item> { loop { match i.next() { Some(x) => { if n == 0 { return Some(x); } n -= 1; }, None => return None } } }
pub fn collect_vec<I: Iterator>(mut i: I, mut v: Vec<I::Item>) -> Vec<I::Item> { while let Some(x) = i.next() { v.push(x); } v }
pub fn collect_string_chars<I: Iterator<Item = char>>(mut i: I) -> String { let mut v = String::new(); while let Some(x) = i.next() { v.push(x); } v }
pub fn collect_map<K: Eq + Hash, V, I: Iterator<Item = (K, V)>>(mut i: I) -> HashMap<K, V> { let mut v = HashMap::new(); while let Some((a, b)) = i.next() { v.insert(a, b); } v }
pub fn collect_res_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut i: I, mut v: Vec<T>) -> Result<Vec<T>, E> { while let Some(x) = i.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } } Ok(v) }
pub fn collect_opt_vec<T, I: Iterator<Item = Option<T>>>(mut i: I, mut v: Vec<T>) -> Option<Vec<T>> { while let Some(x) = i.next() { match x { Some(y) => v.push(y), None => return None } } Some(v) }
pub fn collect_res_unit<E, I: Iterator<Item = Result<(), E>>>(mut i: I) -> Result<(), E> { while let Some(x) = i.next() { match x { Ok(_) => (), Err(e) => return Err(e) } } Ok(()) }
pub fn vec_extend<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut i: I) { while let Some(x) = i.next() { v.push(x); } }
pub fn map_extend<K: Eq + Hash, V, I: Iterator<Item = (K, V)>>(v: &mut HashMap<K, V>, mut i: I) { while let Some((a, b)) = i.next() { v.insert(a, b); } }
pub fn entry_or_insert_with<'a, K: Eq + Hash, V, F: FnOnce() -> V>(e: std::collections::hash_map::Entry<'a, K, V>, f: F) -> &'a mut V { use std::collections::hash_map::Entry; match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => { let x = f(); v.insert(x) } } }
pub fn entry_and_modify<'a, K: Eq + Hash, V, F: FnOnce(&mut V)>(mut e: std::collections::hash_map::Entry<'a, K, V>, f: F) -> std::collections::hash_map::Entry<'a, K, V> { use std::collections::hash_map::Entry; if let Entry::Occupied(o) = &mut e { f(o.get_mut()) } e }
pub fn lock_map<T, U, F: FnOnce(T) -> U>(x: T, f: F) -> U { f(x) }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) { let mut i = 0; while i < v.len() { if f(&v[i]) { i += 1; } else { v.remove(i); } } }
pub fn map_retain<K: Eq + Hash + Clone, V, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V>, mut f: F) { let ks: Vec<K> = m.keys().cloned().collect(); let mut i = 0; while i < ks.len() { let keep = match m.get_mut(&ks[i]) { Some(x) => f(&ks[i], x), None => true }; if !keep { m.remove(&ks[i]); } i += 1; } }

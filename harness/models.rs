// Reference definitions of std iterator consumers, used by the analysis in place of
// the specialised std bodies (same contract, plain MIR).
pub fn model_iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x); } acc }
pub fn model_iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn model_iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn model_iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn model_iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn model_iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> { let mut i = 0usize; while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; } None }
pub fn model_iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn model_iter_count<I: Iterator>(mut it: I) -> usize { let mut n = 0usize; while let Some(_) = it.next() { n = n.wrapping_add(1); } n }
pub fn model_iter_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn model_iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut n = n; while n > 0 { if it.next().is_none() { return None; } n -= 1; } it.next() }
pub fn model_iter_collect<I: Iterator, B: FromIterator<I::Item>>(it: I) -> B { B::from_iter(it) }
pub fn model_vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> { let mut it = it.into_iter(); let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x); } v }
pub fn model_vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(x); } }
pub fn model_vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(*x); } }
pub fn model_result_from_iter<A, E, I: IntoIterator<Item = Result<A, E>>>(it: I) -> Result<Vec<A>, E> { let mut it = it.into_iter(); let mut v = Vec::new(); while let Some(x) = it.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } } Ok(v) }
pub fn model_iter_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> { let mut i = it.len(); while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } } None }
pub fn model_option_from_iter<A, I: IntoIterator<Item = Option<A>>>(it: I) -> Option<Vec<A>> { let mut it = it.into_iter(); let mut v = Vec::new(); while let Some(x) = it.next() { match x { Some(y) => v.push(y), None => return None } } Some(v) }
// std types and functions whose bodies are specialised or written with raw pointers
pub struct ModelZip<A, B> { a: A, b: B }
pub fn model_zip_next<A: Iterator, B: Iterator>(z: &mut ModelZip<A, B>) -> Option<(A::Item, B::Item)> { let x = z.a.next()?; let y = z.b.next()?; Some((x, y)) }
pub fn model_slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool { let mut i = 0usize; while i < s.len() { if s[i] == *x { return true; } i += 1; } false }
pub fn model_vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) { let mut i = 0usize; while i < v.len() { if f(&v[i]) { i += 1; } else { v.remove(i); } } }
pub fn model_to_array<T, const N: usize>(v: Vec<T>) -> [T; N] { loop {} }
pub fn model_array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] { let mut v = Vec::new(); for x in a { v.push(f(x)); } model_to_array::<U, N>(v) }

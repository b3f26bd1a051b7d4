//! Reference semantics of the std / rayon combinators used (or plausibly usable) by the analysed
//! crates, written as plain loops and matches.  The analyser inlines these bodies in place of the
//! std functions, so `iter().any(..)`, a `for` loop and a `while let` have one normal form.
//! Never executed: only its MIR is read.
#![allow(dead_code, unused_variables, unused_mut, clippy::all)]

// ---- markers kept opaque by the analyser ----
pub fn idx_of<I, T>(it: &I, x: &T) -> usize { loop {} }
pub fn opaque_cmp_min<T>(a: T, b: T) -> T { loop {} }
pub fn diverge() -> ! { loop {} }
pub fn pick_first() -> bool { loop {} }
pub fn note_skip(n: usize) {}
pub fn note_take(n: usize) {}
pub fn note_rev() {}
pub fn note_step(n: usize) {}

// ---- Option ----
pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn opt_or<T>(o: Option<T>, d: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => d } }
pub fn opt_and<T, U>(o: Option<T>, d: Option<U>) -> Option<U> { match o { Some(x) => d, None => None } }
pub fn opt_zip<T, U>(o: Option<T>, d: Option<U>) -> Option<(T, U)> { match o { Some(x) => match d { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn opt_is_some<T>(o: &Option<T>) -> bool { match *o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> bool { match *o { Some(_) => false, None => true } }
pub fn opt_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => diverge() } }
pub fn opt_expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => diverge() } }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn opt_unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> { match *o { Some(ref x) => Some(x), None => None } }
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match *o { Some(ref mut x) => Some(x), None => None } }
pub fn opt_copied<T: Copy>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { mem_replace(o, None) }
pub fn opt_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { mem_replace(o, Some(v)) }
pub fn opt_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(r) => match r { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }, None => Ok(None) } }
pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }

// ---- Result ----
pub fn res_map<T, U, E, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn res_map_err<T, E, G, F: FnOnce(E) -> G>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn res_and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn res_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn res_map_or<T, U, E, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn res_map_or_else<T, U, E, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn res_is_ok<T, E>(r: &Result<T, E>) -> bool { match *r { Ok(_) => true, Err(_) => false } }
pub fn res_is_err<T, E>(r: &Result<T, E>) -> bool { match *r { Ok(_) => false, Err(_) => true } }
pub fn res_is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(x) => f(x), Err(_) => false } }
pub fn res_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn res_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(x) => None, Err(e) => Some(e) } }
pub fn res_unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => diverge() } }
pub fn res_expect<T, E>(r: Result<T, E>, m: &str) -> T { match r { Ok(x) => x, Err(_) => diverge() } }
pub fn res_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn res_unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => T::default() } }
pub fn res_as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> { match *r { Ok(ref x) => Ok(x), Err(ref e) => Err(e) } }
pub fn res_inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> { match r { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }

// ---- `?` ----
pub enum CF<B, C> { Continue(C), Break(B) }
pub fn res_branch<T, E>(r: Result<T, E>) -> std::ops::ControlFlow<Result<std::convert::Infallible, E>, T> {
    match r { Ok(x) => std::ops::ControlFlow::Continue(x), Err(e) => std::ops::ControlFlow::Break(Err(e)) }
}
pub fn opt_branch<T>(o: Option<T>) -> std::ops::ControlFlow<Option<std::convert::Infallible>, T> {
    match o { Some(x) => std::ops::ControlFlow::Continue(x), None => std::ops::ControlFlow::Break(None) }
}
pub fn res_from_residual<T, E, F: From<E>>(r: Result<std::convert::Infallible, E>) -> Result<T, F> {
    match r { Ok(_) => diverge(), Err(e) => Err(F::from(e)) }
}
pub fn opt_from_residual<T>(r: Option<std::convert::Infallible>) -> Option<T> { None }

// ---- bool ----
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }

// ---- mem ----
pub fn mem_replace<T>(d: &mut T, v: T) -> T { loop {} } // handled natively
pub fn mem_take<T: Default>(d: &mut T) -> T { mem_replace(d, T::default()) }

// ---- iterator adapters ----
pub struct Map<I, F> { pub iter: I, pub f: F }
pub fn it_map<I, F>(iter: I, f: F) -> Map<I, F> { Map { iter, f } }
pub fn next_Map<I: Iterator, B, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> { match s.iter.next() { Some(x) => Some((s.f)(x)), None => None } }
pub struct Filter<I, F> { pub iter: I, pub f: F }
pub fn it_filter<I, F>(iter: I, f: F) -> Filter<I, F> { Filter { iter, f } }
pub fn next_Filter<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut Filter<I, F>) -> Option<I::Item> {
    while let Some(x) = s.iter.next() { if (s.f)(&x) { return Some(x); } }
    None
}
pub struct FilterMap<I, F> { pub iter: I, pub f: F }
pub fn it_filter_map<I, F>(iter: I, f: F) -> FilterMap<I, F> { FilterMap { iter, f } }
pub fn next_FilterMap<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMap<I, F>) -> Option<B> {
    while let Some(x) = s.iter.next() { if let Some(y) = (s.f)(x) { return Some(y); } }
    None
}
pub struct Enumerate<I> { pub iter: I }
pub fn it_enumerate<I>(iter: I) -> Enumerate<I> { Enumerate { iter } }
pub fn next_Enumerate<I: Iterator>(s: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
    match s.iter.next() { Some(x) => Some((idx_of(&s.iter, &x), x)), None => None }
}
pub struct Zip<I, J> { pub a: I, pub b: J }
pub fn it_zip<I, J>(a: I, b: J) -> Zip<I, J> { Zip { a, b } }
pub fn next_Zip<I: Iterator, J: Iterator>(s: &mut Zip<I, J>) -> Option<(I::Item, J::Item)> {
    match s.a.next() { Some(x) => match s.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
}
pub struct Chain<I, J> { pub a: I, pub b: J }
pub fn it_chain<I, J>(a: I, b: J) -> Chain<I, J> { Chain { a, b } }
pub fn next_Chain<I: Iterator, J: Iterator<Item = I::Item>>(s: &mut Chain<I, J>) -> Option<I::Item> {
    if pick_first() { s.a.next() } else { s.b.next() }
}
pub struct Inspect<I, F> { pub iter: I, pub f: F }
pub fn it_inspect<I, F>(iter: I, f: F) -> Inspect<I, F> { Inspect { iter, f } }
pub fn next_Inspect<I: Iterator, F: FnMut(&I::Item)>(s: &mut Inspect<I, F>) -> Option<I::Item> { match s.iter.next() { Some(x) => { (s.f)(&x); Some(x) } None => None } }
pub struct FlatMap<I, F> { pub iter: I, pub f: F }
pub fn it_flat_map<I, F>(iter: I, f: F) -> FlatMap<I, F> { FlatMap { iter, f } }
/// inner sequences are visited element by element; only "some element of some inner sequence" is kept
pub fn next_FlatMap<I: Iterator, J: Iterator, F: FnMut(I::Item) -> J>(s: &mut FlatMap<I, F>) -> Option<J::Item> {
    while let Some(x) = s.iter.next() { let mut j = (s.f)(x); if let Some(y) = j.next() { return Some(y); } }
    None
}
// over another adapter: the element is one of the inner elements, and a note of the selection is kept;
// directly over a collection the analyser keeps the wrapper itself as the iterated domain
pub struct Skip<I> { pub iter: I, pub n: usize }
pub fn it_skip<I>(iter: I, n: usize) -> Skip<I> { Skip { iter, n } }
pub fn next_Skip<I: Iterator>(s: &mut Skip<I>) -> Option<I::Item> { note_skip(s.n); s.iter.next() }
pub struct Take<I> { pub iter: I, pub n: usize }
pub fn it_take<I>(iter: I, n: usize) -> Take<I> { Take { iter, n } }
pub fn next_Take<I: Iterator>(s: &mut Take<I>) -> Option<I::Item> { note_take(s.n); s.iter.next() }
pub struct RepeatWith<F> { pub f: F }
pub fn repeat_with<T, F: FnMut() -> T>(f: F) -> RepeatWith<F> { RepeatWith { f } }
pub struct RepeatN<F> { pub iter: std::ops::Range<usize>, pub f: F }
pub fn rw_take<F>(s: RepeatWith<F>, n: usize) -> RepeatN<F> { RepeatN { iter: 0..n, f: s.f } }
pub fn next_RepeatN<T, F: FnMut() -> T>(s: &mut RepeatN<F>) -> Option<T> { match s.iter.next() { Some(_) => Some((s.f)()), None => None } }
pub struct Rev<I> { pub iter: I }
pub fn it_rev<I>(iter: I) -> Rev<I> { Rev { iter } }
pub fn next_Rev<I: Iterator>(s: &mut Rev<I>) -> Option<I::Item> { note_rev(); s.iter.next() }
pub struct StepBy<I> { pub iter: I, pub n: usize }
pub fn it_step_by<I>(iter: I, n: usize) -> StepBy<I> { StepBy { iter, n } }
pub fn next_StepBy<I: Iterator>(s: &mut StepBy<I>) -> Option<I::Item> { note_step(s.n); s.iter.next() }

// ---- consumers ----
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(s: &mut I, mut f: F) -> bool { while let Some(x) = s.next() { if f(x) { return true; } } false }
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(s: &mut I, mut f: F) -> bool { while let Some(x) = s.next() { if !f(x) { return false; } } true }
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = s.next() { if f(&x) { return Some(x); } } None }
pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut I, mut f: F) -> Option<B> { while let Some(x) = s.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(s: &mut I, mut f: F) -> Option<usize> { while let Some(x) = s.next() { let i = idx_of(s, &x); if f(x) { return Some(i); } } None }
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut s: I, mut f: F) { while let Some(x) = s.next() { f(x); } }
pub fn it_try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(s: &mut I, mut f: F) -> Result<(), E> { while let Some(x) = s.next() { if let Err(e) = f(x) { return Err(e); } } Ok(()) }
pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut s: I, b: B, mut f: F) -> B { let mut acc = b; while let Some(x) = s.next() { acc = f(acc, x); } acc }
pub fn it_sum_f64<I: Iterator<Item = f64>>(mut s: I) -> f64 { let mut acc = 0.0; while let Some(x) = s.next() { acc = acc + x; } acc }
pub fn it_count<I: Iterator>(mut s: I) -> usize { let mut n = 0; while let Some(x) = s.next() { n += 1; } n }
pub fn it_collect_vec<I: Iterator>(mut s: I) -> Vec<I::Item> { let mut v = Vec::new(); while let Some(x) = s.next() { v.push(x); } v }
pub fn it_collect_result<I: Iterator<Item = Result<T, E>>, T, E>(mut s: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = s.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } }
    Ok(v)
}
pub fn it_collect_option<I: Iterator<Item = Option<T>>, T>(mut s: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = s.next() { match x { Some(y) => v.push(y), None => return None } }
    Some(v)
}
pub fn it_unzip<I: Iterator<Item = (A, B)>, A, B>(mut s: I) -> (Vec<A>, Vec<B>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some((x, y)) = s.next() { a.push(x); b.push(y); }
    (a, b)
}
pub fn it_partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut s: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = s.next() { if f(&x) { a.push(x); } else { b.push(x); } }
    (a, b)
}
pub fn vec_extend<I: Iterator>(v: &mut Vec<I::Item>, mut s: I) { while let Some(x) = s.next() { v.push(x); } }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = mem_replace(v, Vec::new());
    let mut it = old.into_iter();
    while let Some(x) = it.next() { if f(&x) { v.push(x); } }
}

// ---- ndarray (one-dimensional arrays as vectors) ----
pub fn arr_from_shape_fn<T, F: FnMut(usize) -> T>(n: usize, mut f: F) -> Vec<T> { let mut v = Vec::new(); for i in 0..n { v.push(f(i)); } v }
pub fn arr_map<T, U, F: FnMut(T) -> U>(a: Vec<T>, mut f: F) -> Vec<U> { let mut v = Vec::new(); let mut s = a.into_iter(); while let Some(x) = s.next() { v.push(f(x)); } v }
pub fn arr_map_inplace<T: Copy, F: FnMut(T) -> T>(a: &mut Vec<T>, mut f: F) { let mut s = a.iter_mut(); while let Some(x) = s.next() { *x = f(*x); } }
pub fn us_is_multiple_of(a: usize, b: usize) -> bool { if b == 0 { a == 0 } else { a % b == 0 } }
pub fn us_checked_rem(a: usize, b: usize) -> Option<usize> { if b == 0 { None } else { Some(a % b) } }
pub fn opt_eq_usize(a: &Option<usize>, b: &Option<usize>) -> bool { match a { Some(x) => match b { Some(y) => *x == *y, None => false }, None => match b { Some(_) => false, None => true } } }
pub fn opt_ne_usize(a: &Option<usize>, b: &Option<usize>) -> bool { match a { Some(x) => match b { Some(y) => *x != *y, None => true }, None => match b { Some(_) => true, None => false } } }
pub fn opt_eq_f64(a: &Option<f64>, b: &Option<f64>) -> bool { match a { Some(x) => match b { Some(y) => *x == *y, None => false }, None => match b { Some(_) => false, None => true } } }
pub fn opt_ne_f64(a: &Option<f64>, b: &Option<f64>) -> bool { match a { Some(x) => match b { Some(y) => *x != *y, None => true }, None => match b { Some(_) => true, None => false } } }
pub fn opt_eq_u64(a: &Option<u64>, b: &Option<u64>) -> bool { match a { Some(x) => match b { Some(y) => *x == *y, None => false }, None => match b { Some(_) => false, None => true } } }
pub fn opt_ne_u64(a: &Option<u64>, b: &Option<u64>) -> bool { match a { Some(x) => match b { Some(y) => *x != *y, None => true }, None => match b { Some(_) => true, None => false } } }
pub fn opt_eq_bool(a: &Option<bool>, b: &Option<bool>) -> bool { match a { Some(x) => match b { Some(y) => *x == *y, None => false }, None => match b { Some(_) => false, None => true } } }
pub fn opt_ne_bool(a: &Option<bool>, b: &Option<bool>) -> bool { match a { Some(x) => match b { Some(y) => *x != *y, None => true }, None => match b { Some(_) => true, None => false } } }
pub fn us_from_bool(b: bool) -> usize { if b { 1 } else { 0 } }
pub fn mem_take_of<T>(d: &mut T, z: T) -> T { mem_replace(d, z) }

// ---- pyo3 ----
pub fn py_attach<R, F: FnOnce(u8) -> R>(f: F) -> R { f(0) }
pub fn py_detach<R, T, F: FnOnce() -> R>(py: T, f: F) -> R { f() }

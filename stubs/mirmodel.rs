//! Reference bodies for std / rayon / futures combinators.  The analyser inlines
//! these in place of the library functions, so that a `match`, a combinator
//! chain and an explicit loop over the same data produce the same flow graph.
//! `prim_*` are interpreted by the analyser itself.
#![allow(dead_code, unused_mut, unused_variables, unconditional_recursion)]
#![feature(try_trait)]
use std::cmp::Ordering;
use std::option::NoneError;
use std::task::Poll;

pub fn prim_panic() -> ! { loop {} }
pub fn prim_nondet() -> bool { true }
pub fn prim_next<I, T>(i: &mut I) -> Option<T> { loop {} }
pub fn prim_new<C>() -> C { loop {} }
pub fn prim_push<C, T>(c: &mut C, t: T) { }
pub fn prim_await<F, T>(f: F) -> T { loop {} }
pub fn prim_default<T>() -> T { loop {} }
pub fn prim_entry_ref<'a, E, T>(e: &mut E) -> &'a mut T { loop {} }
pub fn prim_entry_slot<E, T>(e: &mut E) -> &mut T { loop {} }
pub fn prim_entry_fill<E, T>(e: &mut E, t: T) { loop {} }
pub fn prim_any<T>() -> T { loop {} }
pub fn prim_eq<T>(a: &T, b: &T) -> bool { loop {} }

// ---- Option ----
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn option_and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> {
    match o { Some(_) => b, None => None }
}
pub fn option_or<T>(o: Option<T>, b: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => b }
}
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn option_is_some<T>(o: &Option<T>) -> bool {
    match o { Some(_) => true, None => false }
}
pub fn option_is_none<T>(o: &Option<T>) -> bool {
    match o { Some(_) => false, None => true }
}
pub fn option_unwrap<T>(o: Option<T>) -> T {
    match o { Some(x) => x, None => prim_panic() }
}
pub fn option_expect<T>(o: Option<T>, m: &str) -> T {
    match o { Some(x) => x, None => prim_panic() }
}
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(x) => x, None => d }
}
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn option_unwrap_or_default<T>(o: Option<T>) -> T {
    match o { Some(x) => x, None => prim_default() }
}
pub fn option_into_result<T>(o: Option<T>) -> Result<T, NoneError> {
    match o { Some(x) => Ok(x), None => Err(NoneError) }
}
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> {
    match o { Some(x) => x, None => None }
}
pub fn option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = *o { *o = Some(f()); }
    match *o { Some(ref mut v) => v, None => prim_panic() }
}
pub fn option_get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    if let None = *o { *o = Some(v); }
    match *o { Some(ref mut v) => v, None => prim_panic() }
}
pub fn option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> {
    let x = match o { Some(_) => prim_take(o), None => None };
    *o = Some(v);
    x
}
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> {
    match o {
        Some(_) => { let x = prim_take(o); *o = None; x }
        None => None,
    }
}
pub fn prim_take<T>(o: &mut T) -> T { loop {} }

// ---- Result ----
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn result_map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> {
    match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn result_and<T, E, U>(r: Result<T, E>, b: Result<U, E>) -> Result<U, E> {
    match r { Ok(_) => b, Err(e) => Err(e) }
}
pub fn result_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(r: Result<T, E>, f: F) -> Result<T, U> {
    match r { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn result_ok<T, E>(r: Result<T, E>) -> Option<T> {
    match r { Ok(x) => Some(x), Err(_) => None }
}
pub fn result_err<T, E>(r: Result<T, E>) -> Option<E> {
    match r { Ok(_) => None, Err(e) => Some(e) }
}
pub fn result_is_ok<T, E>(r: &Result<T, E>) -> bool {
    match r { Ok(_) => true, Err(_) => false }
}
pub fn result_is_err<T, E>(r: &Result<T, E>) -> bool {
    match r { Ok(_) => false, Err(_) => true }
}
pub fn result_unwrap<T, E>(r: Result<T, E>) -> T {
    match r { Ok(x) => x, Err(_) => prim_panic() }
}
pub fn result_expect<T, E>(r: Result<T, E>, m: &str) -> T {
    match r { Ok(x) => x, Err(_) => prim_panic() }
}
pub fn result_unwrap_err<T, E>(r: Result<T, E>) -> E {
    match r { Ok(_) => prim_panic(), Err(e) => e }
}
pub fn result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T {
    match r { Ok(x) => x, Err(_) => d }
}
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T {
    match r { Ok(x) => x, Err(e) => f(e) }
}
pub fn result_unwrap_or_default<T, E>(r: Result<T, E>) -> T {
    match r { Ok(x) => x, Err(_) => prim_default() }
}
pub fn result_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> {
    match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }
}
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b { Some(f()) } else { None }
}
pub fn ordering_then_with<F: FnOnce() -> Ordering>(o: Ordering, f: F) -> Ordering {
    match o { Ordering::Equal => f(), x => x }
}

// ---- map entries ----
pub fn entry_and_modify<E, V, F: FnOnce(&mut V)>(mut e: E, f: F) -> E {
    if entry_occupied(&mut e) { f(prim_entry_slot(&mut e)); }
    e
}
pub fn entry_occupied<E>(e: &mut E) -> bool { true }
pub fn entry_or_insert<'a, E, V>(mut e: E, v: V) -> &'a mut V {
    if !entry_occupied(&mut e) { prim_entry_fill(&mut e, v); }
    prim_entry_ref(&mut e)
}
pub fn entry_or_insert_with<'a, E, V, F: FnOnce() -> V>(mut e: E, f: F) -> &'a mut V {
    if !entry_occupied(&mut e) { prim_entry_fill(&mut e, f()); }
    prim_entry_ref(&mut e)
}
pub fn entry_or_default<'a, E, V>(mut e: E) -> &'a mut V {
    if !entry_occupied(&mut e) { prim_entry_fill::<E, V>(&mut e, prim_default()); }
    prim_entry_ref(&mut e)
}

// ---- iterators ----
pub struct Map<I, F> { i: I, f: F }
pub struct Take<I> { pub i: I }
pub struct Filter<I, F> { i: I, f: F }
pub struct FilterMap<I, F> { i: I, f: F }
pub struct FlatMap<I, F> { i: I, f: F }
pub struct TakeWhile<I, F> { i: I, f: F }
pub struct SkipWhile<I, F> { i: I, f: F }
pub struct Chain<A, B> { a: A, b: B }
pub struct Inspect<I, F> { i: I, f: F }

pub fn iter_map<I, F>(i: I, f: F) -> Map<I, F> { Map { i, f } }
pub fn iter_filter<I, F>(i: I, f: F) -> Filter<I, F> { Filter { i, f } }
pub fn iter_filter_map<I, F>(i: I, f: F) -> FilterMap<I, F> { FilterMap { i, f } }
pub fn iter_flat_map<I, F>(i: I, f: F) -> FlatMap<I, F> { FlatMap { i, f } }
pub fn iter_take_while<I, F>(i: I, f: F) -> TakeWhile<I, F> { TakeWhile { i, f } }
pub fn iter_skip_while<I, F>(i: I, f: F) -> SkipWhile<I, F> { SkipWhile { i, f } }
pub fn iter_inspect<I, F>(i: I, f: F) -> Inspect<I, F> { Inspect { i, f } }
pub fn iter_chain<A, B>(a: A, b: B) -> Chain<A, B> { Chain { a, b } }

pub fn next_map<I, T, U, F: FnMut(T) -> U>(m: &mut Map<I, F>) -> Option<U> {
    match prim_next(&mut m.i) { Some(x) => Some((m.f)(x)), None => None }
}
pub fn next_inspect<I, T, F: FnMut(&T)>(m: &mut Inspect<I, F>) -> Option<T> {
    match prim_next(&mut m.i) { Some(x) => { (m.f)(&x); Some(x) } None => None }
}
pub fn next_filter<I, T, F: FnMut(&T) -> bool>(m: &mut Filter<I, F>) -> Option<T> {
    loop {
        match prim_next(&mut m.i) {
            Some(x) => if (m.f)(&x) { return Some(x); },
            None => return None,
        }
    }
}
pub fn next_filter_map<I, T, U, F: FnMut(T) -> Option<U>>(m: &mut FilterMap<I, F>) -> Option<U> {
    loop {
        match prim_next(&mut m.i) {
            Some(x) => match (m.f)(x) { Some(y) => return Some(y), None => {} },
            None => return None,
        }
    }
}
pub fn next_flat_map<I, T, U, V, F: FnMut(T) -> U>(m: &mut FlatMap<I, F>) -> Option<V> {
    loop {
        match prim_next(&mut m.i) {
            Some(x) => {
                let mut j = (m.f)(x);
                if prim_nondet() {
                    match prim_next(&mut j) { Some(y) => return Some(y), None => {} }
                }
            }
            None => return None,
        }
    }
}
pub fn next_take_while<I, T, F: FnMut(&T) -> bool>(m: &mut TakeWhile<I, F>) -> Option<T> {
    match prim_next(&mut m.i) { Some(x) => if (m.f)(&x) { Some(x) } else { None }, None => None }
}
pub fn next_take<I, T>(m: &mut Take<I>) -> Option<T> {
    if prim_nondet() { return None; }
    prim_next(&mut m.i)
}
pub fn iter_take<I, N>(i: I, _n: N) -> Take<I> { Take { i } }
pub fn next_skip_while<I, T, F: FnMut(&T) -> bool>(m: &mut SkipWhile<I, F>) -> Option<T> {
    loop {
        match prim_next(&mut m.i) {
            Some(x) => if prim_nondet() || !(m.f)(&x) { return Some(x); },
            None => return None,
        }
    }
}
pub fn next_chain<A, B, T>(m: &mut Chain<A, B>) -> Option<T> {
    if prim_nondet() {
        match prim_next(&mut m.a) { Some(x) => return Some(x), None => {} }
    }
    prim_next(&mut m.b)
}

pub fn iter_collect<I, T, C>(mut i: I) -> C {
    let mut c = prim_new();
    while let Some(x) = prim_next::<I, T>(&mut i) { prim_push(&mut c, x); }
    c
}
pub fn iter_unzip<I, A, B, C, D>(mut i: I) -> (C, D) {
    let mut c = prim_new();
    let mut d = prim_new();
    while let Some((x, y)) = prim_next::<I, (A, B)>(&mut i) { prim_push(&mut c, x); prim_push(&mut d, y); }
    (c, d)
}
pub fn prim_first<C, N, X>(c: C, n: N) -> X { loop {} }
pub fn iter_choose_multiple<I, T, G, N, C, X>(mut i: I, _g: G, n: N) -> X {
    let mut c: C = prim_new();
    while let Some(x) = prim_next::<I, T>(&mut i) { prim_push(&mut c, x); }
    prim_first(c, n)
}
pub fn iter_flatten<I, T>(i: I) -> FlatMap<I, fn(T) -> T> { FlatMap { i, f: same::<T> } }
pub fn same<T>(x: T) -> T { x }
pub fn iter_collect_result<I, T, E, C>(mut i: I) -> Result<C, E> {
    let mut c = prim_new();
    while let Some(r) = prim_next::<I, Result<T, E>>(&mut i) {
        match r { Ok(x) => prim_push(&mut c, x), Err(e) => return Err(e) }
    }
    Ok(c)
}
pub fn iter_collect_option<I, T, C>(mut i: I) -> Option<C> {
    let mut c = prim_new();
    while let Some(r) = prim_next::<I, Option<T>>(&mut i) {
        match r { Some(x) => prim_push(&mut c, x), None => return None }
    }
    Some(c)
}
pub fn extend<I, T, C>(c: &mut C, mut i: I) {
    while let Some(x) = prim_next::<I, T>(&mut i) { prim_push(c, x); }
}
pub fn retain<I, T, C, F: FnMut(&T) -> bool>(c: &mut C, mut f: F) {
    while let Some(x) = prim_next::<C, T>(c) { if !f(&x) { prim_remove_elem(c, x); } }
}
pub fn prim_remove_elem<C, T>(c: &mut C, t: T) { }
pub fn iter_for_each<I, T, F: FnMut(T)>(mut i: I, mut f: F) {
    while let Some(x) = prim_next::<I, T>(&mut i) { f(x); }
}
pub fn iter_try_for_each<I, T, E, F: FnMut(T) -> Result<(), E>>(mut i: I, mut f: F) -> Result<(), E> {
    while let Some(x) = prim_next::<I, T>(&mut i) {
        match f(x) { Ok(_) => {} Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn iter_fold<I, T, A, F: FnMut(A, T) -> A>(mut i: I, init: A, mut f: F) -> A {
    let mut acc = init;
    while let Some(x) = prim_next::<I, T>(&mut i) { acc = f(acc, x); }
    acc
}
pub fn iter_try_fold<I, T, A, E, F: FnMut(A, T) -> Result<A, E>>(mut i: I, init: A, mut f: F) -> Result<A, E> {
    let mut acc = init;
    while let Some(x) = prim_next::<I, T>(&mut i) {
        match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) }
    }
    Ok(acc)
}
pub fn iter_all<I, T, F: FnMut(T) -> bool>(i: &mut I, mut f: F) -> bool {
    while let Some(x) = prim_next::<I, T>(i) { if !f(x) { return false; } }
    true
}
pub fn iter_any<I, T, F: FnMut(T) -> bool>(i: &mut I, mut f: F) -> bool {
    while let Some(x) = prim_next::<I, T>(i) { if f(x) { return true; } }
    false
}
pub fn iter_find<I, T, F: FnMut(&T) -> bool>(i: &mut I, mut f: F) -> Option<T> {
    while let Some(x) = prim_next::<I, T>(i) { if f(&x) { return Some(x); } }
    None
}
pub fn iter_find_map<I, T, U, F: FnMut(T) -> Option<U>>(i: &mut I, mut f: F) -> Option<U> {
    while let Some(x) = prim_next::<I, T>(i) { if let Some(y) = f(x) { return Some(y); } }
    None
}

// ---- futures ----
pub struct FutMapErr<A, F> { a: A, f: F }
pub struct FutMap<A, F> { a: A, f: F }
pub struct FutThen<A, F> { a: A, f: F }
pub struct FutAndThen<A, F> { a: A, f: F }
pub struct FutElse<A, F> { a: A, f: F }
pub struct FutAll<A> { a: A }
pub fn fut_map_err<A, F>(a: A, f: F) -> FutMapErr<A, F> { FutMapErr { a, f } }
pub fn fut_map<A, F>(a: A, f: F) -> FutMap<A, F> { FutMap { a, f } }
pub fn fut_then<A, F>(a: A, f: F) -> FutThen<A, F> { FutThen { a, f } }
pub fn fut_and_then<A, F>(a: A, f: F) -> FutAndThen<A, F> { FutAndThen { a, f } }
pub fn fut_else<A, F>(a: A, f: F) -> FutElse<A, F> { FutElse { a, f } }
pub fn fut_all<A>(a: A) -> FutAll<A> { FutAll { a } }
pub fn poll_map_err<A, T, E, U, F: FnOnce(E) -> U>(m: FutMapErr<A, F>) -> Result<T, U> {
    match prim_await::<A, Result<T, E>>(m.a) { Ok(x) => Ok(x), Err(e) => Err((m.f)(e)) }
}
pub fn poll_map<A, T, U, F: FnOnce(T) -> U>(m: FutMap<A, F>) -> U { (m.f)(prim_await::<A, T>(m.a)) }
pub fn poll_then<A, T, B, U, F: FnOnce(T) -> B>(m: FutThen<A, F>) -> U {
    prim_await::<B, U>((m.f)(prim_await::<A, T>(m.a)))
}
pub fn poll_and_then<A, T, E, B, U, F: FnOnce(T) -> B>(m: FutAndThen<A, F>) -> Result<U, E> {
    match prim_await::<A, Result<T, E>>(m.a) {
        Ok(x) => prim_await::<B, Result<U, E>>((m.f)(x)),
        Err(e) => Err(e),
    }
}
pub fn poll_else<A, T, E, F: FnOnce(E) -> T>(m: FutElse<A, F>) -> T {
    match prim_await::<A, Result<T, E>>(m.a) { Ok(x) => x, Err(e) => (m.f)(e) }
}
pub fn poll_all<A, B, T, E, C>(m: FutAll<A>) -> Result<C, E> {
    let mut c = prim_new();
    let mut i = m.a;
    while let Some(f) = prim_next::<A, B>(&mut i) {
        match prim_await::<B, Result<T, E>>(f) { Ok(x) => prim_push(&mut c, x), Err(e) => return Err(e) }
    }
    Ok(c)
}
pub fn prim_handle<T>() -> T { loop {} }
pub fn spawn<F, T, H>(f: F) -> H {
    if prim_nondet() { let _x = prim_await::<F, T>(f); }
    prim_handle()
}
pub fn block_on<F, T>(f: F) -> T { prim_await::<F, T>(f) }

// ---- closures handed to a function that is not modelled ----
pub fn maybe_call0<R, F: FnMut() -> R>(mut f: F) { if prim_nondet() { let _r = f(); } }
pub fn maybe_call1<A, R, F: FnMut(A) -> R>(mut f: F) { if prim_nondet() { let _r = f(prim_any()); } }
pub fn maybe_call2<A, B, R, F: FnMut(A, B) -> R>(mut f: F) { if prim_nondet() { let _r = f(prim_any(), prim_any()); } }
pub fn prim_index<T>(x: &T) -> usize { 0 }
pub fn iter_position<I, T, F: FnMut(T) -> bool>(i: &mut I, mut f: F) -> Option<usize> {
    while let Some(x) = prim_next::<I, T>(i) {
        let at = prim_index(&x);
        if f(x) { return Some(at); }
    }
    None
}
pub fn iter_flatten_option<I, T>(i: I) -> FilterMap<I, fn(Option<T>) -> Option<T>> { FilterMap { i, f: flatten_self::<T> } }
pub fn flatten_self<T>(x: Option<T>) -> Option<T> { x }

pub fn prim_lo<R>(r: &R) -> usize { 0 }
pub fn prim_hi<R>(r: &R) -> usize { 0 }
pub fn prim_item<T>(x: &T) -> usize { 0 }
pub fn range_contains<R, T>(r: &R, x: &T) -> bool {
    let v = prim_item(x);
    if v < prim_lo(r) { return false; }
    v < prim_hi(r)
}
pub fn range_incl_contains<R, T>(r: &R, x: &T) -> bool {
    let v = prim_item(x);
    if v < prim_lo(r) { return false; }
    v <= prim_hi(r)
}
pub fn prim_len<C>(c: C) -> usize { 0 }
pub fn iter_count<I, T, C>(i: I) -> usize {
    let c: C = iter_collect::<I, T, C>(i);
    prim_len(c)
}

// ---------------------------------------------------------------- more of the standard library
// Contracts of functions the crate does not call today, so that a rewritten body stays within reach of the proof.
// TRUSTED wherever a body uses them; the evidence lists the ones in use.
// An item is part of the verified text only if the name after //@ occurs in the source.
//@ map_or
pub assume_specification<T, U: core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct>[Option::<T>::map_or](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
//@ map_or_else
pub assume_specification<T, U, D: FnOnce() -> U + core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct>[Option::<T>::map_or_else](o: Option<T>, d: D, f: F) -> (r: U)
    requires match o { Some(x) => f.requires((x,)), None => d.requires(()) },
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
//@ filter
pub assume_specification<T: core::marker::Destruct, F: FnOnce(&T) -> bool + core::marker::Destruct>[Option::<T>::filter](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> f.requires((&o->0,)),
    ensures r == o && (o is Some ==> f.ensures((&o->0,), true)) || r is None && o is Some && f.ensures((&o->0,), false);
//@ or
pub assume_specification<T: core::marker::Destruct>[Option::<T>::or](o: Option<T>, d: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { d });
//@ or_else
pub assume_specification<T, F: FnOnce() -> Option<T> + core::marker::Destruct>[Option::<T>::or_else](o: Option<T>, f: F) -> (r: Option<T>)
    where T: core::marker::Destruct
    requires o is None ==> f.requires(()),
    ensures match o { Some(_) => r == o, None => f.ensures((), r) };
//@ xor
pub assume_specification<T: core::marker::Destruct>[Option::<T>::xor](o: Option<T>, d: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && d is None { o } else if o is None && d is Some { d } else { None });
//@ zip
pub assume_specification<T: core::marker::Destruct, U: core::marker::Destruct>[Option::<T>::zip](o: Option<T>, d: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, d) { (Some(a), Some(b)) => Some((a, b)), _ => None });
//@ is_some_and
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct>[Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };
//@ is_none_or
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct>[Option::<T>::is_none_or](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r };
//@ replace
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
//@ copied
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
//@ and_then
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E> + core::marker::Destruct>[Result::<T, E>::and_then](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
//@ and
pub assume_specification<T: core::marker::Destruct, E: core::marker::Destruct, U: core::marker::Destruct>[Result::<T, E>::and](o: Result<T, E>, d: Result<U, E>) -> (r: Result<U, E>)
    ensures r == (match o { Ok(_) => d, Err(e) => Err(e) });
//@ or_else
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G> + core::marker::Destruct>[Result::<T, E>::or_else](o: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures match o { Ok(x) => r == Ok::<T, G>(x), Err(e) => f.ensures((e,), r) };
//@ unwrap_or_else
pub assume_specification<T, E, F: FnOnce(E) -> T + core::marker::Destruct>[Result::<T, E>::unwrap_or_else](o: Result<T, E>, f: F) -> (r: T)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures match o { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
//@ map_or
pub assume_specification<T, E, U: core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct>[Result::<T, E>::map_or](o: Result<T, E>, d: U, f: F) -> (r: U)
    where E: core::marker::Destruct, T: core::marker::Destruct
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(_) => r == d };
//@ is_ok_and
pub assume_specification<T, E, F: FnOnce(T) -> bool + core::marker::Destruct>[Result::<T, E>::is_ok_and](o: Result<T, E>, f: F) -> (r: bool)
    where E: core::marker::Destruct, T: core::marker::Destruct
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(_) => !r };
//@ replace
pub assume_specification<T>[core::mem::replace](x: &mut T, v: T) -> (r: T)
    ensures r == *old(x), *final(x) == v;
//@ take
pub assume_specification<T: Default>[core::mem::take](x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x));
//@ max
pub assume_specification<T: Ord + core::marker::Destruct>[core::cmp::max](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if <T as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a, &b) is Greater { a } else { b });
//@ identity
pub assume_specification<T>[core::convert::identity](a: T) -> (r: T)
    ensures r == a;
//@ then
pub assume_specification[Ordering::then](a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a is Equal { b } else { a });
//@ is_ascii
pub assume_specification[char::is_ascii](c: &char) -> (r: bool)
    ensures r == ((*c as u32) < 0x80);
//@ is_ascii_whitespace
pub assume_specification[char::is_ascii_whitespace](c: &char) -> (r: bool)
    ensures r == (*c == '\t' || *c == '\n' || *c == '\u{c}' || *c == '\r' || *c == ' ');
//@ from_u32
pub assume_specification[core::char::from_u32](u: u32) -> (r: Option<char>)
    ensures match r { Some(c) => c as u32 == u, None => u > 0x10ffff || 0xd800 <= u <= 0xdfff };
//@ overflowing_add
pub assume_specification[usize::overflowing_add](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a + b > usize::MAX), r.0 == (if a + b > usize::MAX { a + b - usize::MAX - 1 } else { a + b });
//@ overflowing_sub
pub assume_specification[usize::overflowing_sub](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a < b), r.0 == (if a < b { a - b + usize::MAX + 1 } else { a - b });
//@ abs_diff
pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b - a } else { a - b });
//@ trim
pub assume_specification[str::trim](s: &str) -> (r: &str)
    ensures r@ == trimmed(s@);
//@ trim_start
pub assume_specification[str::trim_start](s: &str) -> (r: &str)
    ensures r@ == s@.skip(lead(s@));
//@ trim_end
pub assume_specification[str::trim_end](s: &str) -> (r: &str)
    ensures r@ == s@.take(trail(s@));
//@ as_str
pub assume_specification<'a>[core::str::Chars::<'a>::as_str](c: &core::str::Chars<'a>) -> (r: &'a str)
    ensures r@ == c.remaining();
//@ fill
pub assume_specification<T: Clone>[<[T]>::fill](s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < final(s)@.len() ==> v == #[trigger] final(s)@[i] || cloned(v, final(s)@[i]);
//@ swap
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
//@ reverse
pub assume_specification<T>[<[T]>::reverse](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
//@ rotate_left
pub assume_specification<T>[<[T]>::rotate_left](s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.skip(k as int) + old(s)@.take(k as int);
//@ rotate_right
pub assume_specification<T>[<[T]>::rotate_right](s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.skip(old(s)@.len() - k) + old(s)@.take(old(s)@.len() - k);
//@ eq
/// `core::ptr::eq`: the same object is the same value
#[verifier::external_body]
pub fn ptr_eq<T: ?Sized>(a: &T, b: &T) -> (r: bool)
    ensures r ==> a == b,
{ core::ptr::eq(a, b) }
//@ as_ptr
/// a number that depends on where a value lies: any
#[verifier::external_body]
pub fn some_address<T: ?Sized>(a: &T) -> (r: usize) { unimplemented!() }
//@ size_hint
/// `Iterator::size_hint`: any answer
pub trait Hinted: Iterator { fn size_hint_(&self) -> (r: (usize, Option<usize>)); }
impl<I: Iterator> Hinted for I {
    #[verifier::external_body]
    fn size_hint_(&self) -> (usize, Option<usize>) { self.size_hint() }
}
//@ into_inner
pub assume_specification<Idx>[core::ops::RangeInclusive::<Idx>::into_inner](r: core::ops::RangeInclusive<Idx>) -> (p: (Idx, Idx))
    ensures p.0 == r.view().start, p.1 == r.view().end;
//@ unwrap_or_default
pub assume_specification<T: Default + core::marker::Destruct, E: core::marker::Destruct>[Result::<T, E>::unwrap_or_default](o: Result<T, E>) -> (r: T)
    ensures match o { Ok(x) => r == x, Err(_) => T::default.ensures((), r) };

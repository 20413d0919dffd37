// Iteration: every `for` loop and iterator chain of the source runs over one of these.
pub mod shim {
use vstd::prelude::*;
use crate::spec::*;

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XIter<T> { v: Vec<T> }
impl<T> View for XIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> XIter<T> {
    pub open spec fn xlen(&self) -> int { self@.len() as int }
    #[verifier::external_body] pub fn x_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn x_at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn x_collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn x_step_by(self, n: usize) -> (r: XIter<T>) requires n > 0 ensures r@.len() == chunk_count(self@.len() as int, n as int), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i * n] { unimplemented!() }
    #[verifier::external_body] pub fn x_first(self) -> (r: Option<T>) ensures r is None <==> self@.len() == 0, r matches Some(v) ==> v == self@[0] { unimplemented!() }
}
#[verifier::external_body]
pub fn x_from_vec<T>(v: Vec<T>) -> (r: XIter<T>) ensures r@ == v@ { unimplemented!() }

pub trait XSrc: Sized { type Item; spec fn xsrc(self) -> Seq<Self::Item>; fn x_src(self) -> (r: XIter<Self::Item>) ensures r@ == self.xsrc(); }
impl<T> XSrc for XIter<T> { type Item = T; open spec fn xsrc(self) -> Seq<T> { self@ } #[verifier::external_body] fn x_src(self) -> XIter<T> { unimplemented!() } }
impl<T> XSrc for Vec<T> { type Item = T; open spec fn xsrc(self) -> Seq<T> { self@ } #[verifier::external_body] fn x_src(self) -> XIter<T> { unimplemented!() } }
impl<T, const N: usize> XSrc for [T; N] { type Item = T; open spec fn xsrc(self) -> Seq<T> { self@ } #[verifier::external_body] fn x_src(self) -> XIter<T> { unimplemented!() } }
impl<'a, T> XSrc for &'a [T] { type Item = &'a T; open spec fn xsrc(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn x_src(self) -> XIter<&'a T> { unimplemented!() } }
impl<'a, T> XSrc for &'a Vec<T> { type Item = &'a T; open spec fn xsrc(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn x_src(self) -> XIter<&'a T> { unimplemented!() } }
impl<'a, T, const N: usize> XSrc for &'a [T; N] { type Item = &'a T; open spec fn xsrc(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn x_src(self) -> XIter<&'a T> { unimplemented!() } }
impl XSrc for core::ops::Range<usize> { type Item = usize; open spec fn xsrc(self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) } #[verifier::external_body] fn x_src(self) -> XIter<usize> { unimplemented!() } }
impl XSrc for core::ops::Range<i32> { type Item = i32; open spec fn xsrc(self) -> Seq<i32> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as i32) } #[verifier::external_body] fn x_src(self) -> XIter<i32> { unimplemented!() } }

// Slices and vectors
pub trait XSlice<T> {
    spec fn xs(&self) -> Seq<T>;
    fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) ensures r@ == Seq::new(self.xs().len(), |i: int| &self.xs()[i]);
    fn x_chunks<'a>(&'a self, n: usize) -> (r: XIter<&'a [T]>)
        requires n > 0
        ensures r@.len() == chunk_count(self.xs().len() as int, n as int),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunk_of(self.xs(), n as int, i);
    fn x_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) requires a <= b <= self.xs().len() ensures r@ == self.xs().subrange(a as int, b as int);
    fn x_range_from<'a>(&'a self, a: usize) -> (r: &'a [T]) requires a <= self.xs().len() ensures r@ == self.xs().subrange(a as int, self.xs().len() as int);
    fn x_range_to<'a>(&'a self, b: usize) -> (r: &'a [T]) requires b <= self.xs().len() ensures r@ == self.xs().subrange(0, b as int);
    fn x_last<'a>(&'a self) -> (r: Option<&'a T>) ensures self.xs().len() == 0 ==> r is None, self.xs().len() > 0 ==> r == Some(&self.xs().last());
}
impl<T> XSlice<T> for [T] {
    open spec fn xs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_iter<'a>(&'a self) -> XIter<&'a T> { unimplemented!() }
    #[verifier::external_body] fn x_chunks<'a>(&'a self, n: usize) -> XIter<&'a [T]> { unimplemented!() }
    #[verifier::external_body] fn x_range<'a>(&'a self, a: usize, b: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_range_from<'a>(&'a self, a: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_range_to<'a>(&'a self, b: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_last<'a>(&'a self) -> Option<&'a T> { unimplemented!() }
}
impl<T> XSlice<T> for Vec<T> {
    open spec fn xs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_iter<'a>(&'a self) -> XIter<&'a T> { unimplemented!() }
    #[verifier::external_body] fn x_chunks<'a>(&'a self, n: usize) -> XIter<&'a [T]> { unimplemented!() }
    #[verifier::external_body] fn x_range<'a>(&'a self, a: usize, b: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_range_from<'a>(&'a self, a: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_range_to<'a>(&'a self, b: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_last<'a>(&'a self) -> Option<&'a T> { unimplemented!() }
}
impl<T, const N: usize> XSlice<T> for [T; N] {
    open spec fn xs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_iter<'a>(&'a self) -> XIter<&'a T> { unimplemented!() }
    #[verifier::external_body] fn x_chunks<'a>(&'a self, n: usize) -> XIter<&'a [T]> { unimplemented!() }
    #[verifier::external_body] fn x_range<'a>(&'a self, a: usize, b: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_range_from<'a>(&'a self, a: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_range_to<'a>(&'a self, b: usize) -> &'a [T] { unimplemented!() }
    #[verifier::external_body] fn x_last<'a>(&'a self) -> Option<&'a T> { unimplemented!() }
}

pub trait XContains<T> { fn x_contains(&self, x: &T) -> bool; }
impl XContains<String> for Vec<String> { #[verifier::external_body] fn x_contains(&self, x: &String) -> (r: bool) ensures r == strings(self@).contains(x@) { unimplemented!() } }
impl XContains<u8> for [u8] { #[verifier::external_body] fn x_contains(&self, x: &u8) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() } }
impl XContains<usize> for core::ops::RangeInclusive<usize> { #[verifier::external_body] fn x_contains(&self, x: &usize) -> (r: bool) ensures r == (self@.start <= *x <= self@.end) { unimplemented!() } }

pub trait XVec<T> {
    spec fn xvv(&self) -> Seq<T>;
    spec fn xcap(&self) -> nat;
    fn x_capacity(&self) -> (r: usize) ensures r == self.xcap(), r >= self.xvv().len();
    fn x_as_mut_slice<'a>(&'a mut self) -> (r: &'a mut [T]) ensures r@ == old(self).xvv(), final(self).xvv() == final(r)@;
    fn x_pop(&mut self) -> (r: Option<T>)
        ensures old(self).xvv().len() == 0 ==> r is None && final(self).xvv() == old(self).xvv(),
            old(self).xvv().len() > 0 ==> r == Some(old(self).xvv().last()) && final(self).xvv() == old(self).xvv().drop_last();
}
pub uninterp spec fn vec_cap<T>(v: Vec<T>) -> nat;
impl<T> XVec<T> for Vec<T> {
    open spec fn xvv(&self) -> Seq<T> { self@ }
    open spec fn xcap(&self) -> nat { vec_cap(*self) }
    #[verifier::external_body] fn x_capacity(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn x_as_mut_slice<'a>(&'a mut self) -> &'a mut [T] { unimplemented!() }
    #[verifier::external_body] fn x_pop(&mut self) -> Option<T> { unimplemented!() }
}
/// Capacity is exactly what was asked for (true of the allocator-backed implementation for non-zero element sizes).
#[verifier::external_body]
pub fn x_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@.len() == 0, r@ == Seq::<T>::empty(), vec_cap(r) == n { unimplemented!() }
pub trait XExtend<T> { fn x_extend_from_slice(&mut self, s: &[T]); }
impl<T: Copy> XExtend<T> for Vec<T> {
    /// Appending within the capacity does not reallocate.
    #[verifier::external_body]
    fn x_extend_from_slice(&mut self, s: &[T]) ensures final(self)@ == old(self)@ + s@, final(self)@.len() <= vec_cap(*old(self)) ==> vec_cap(*final(self)) == vec_cap(*old(self)) { unimplemented!() }
}
#[verifier::external_body]
pub fn x_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }

// Dereferencing in arithmetic
pub trait XD { type T; spec fn xd(self) -> Self::T; fn x_d(self) -> (r: Self::T) ensures r == self.xd(); }
impl XD for u8 { type T = u8; open spec fn xd(self) -> u8 { self } fn x_d(self) -> u8 { self } }
impl<'a> XD for &'a u8 { type T = u8; open spec fn xd(self) -> u8 { *self } fn x_d(self) -> u8 { *self } }
impl<'a, 'b> XD for &'a &'b u8 { type T = u8; open spec fn xd(self) -> u8 { **self } fn x_d(self) -> u8 { **self } }
impl XD for usize { type T = usize; open spec fn xd(self) -> usize { self } fn x_d(self) -> usize { self } }
impl<'a> XD for &'a usize { type T = usize; open spec fn xd(self) -> usize { *self } fn x_d(self) -> usize { *self } }
impl XD for i32 { type T = i32; open spec fn xd(self) -> i32 { self } fn x_d(self) -> i32 { self } }

// Printing: arguments are evaluated, the text itself is outside the contracts
#[verifier::external_body] pub fn x_use<T: ?Sized>(t: &T) { }
#[verifier::external_body] pub fn x_format() -> String { unimplemented!() }
#[verifier::external_body] pub fn x_print() { }
/// The text an argument of println! or format! stands for (its Display implementation).
pub trait XDisp { spec fn xchars(&self) -> Seq<char>; spec fn xdisp(&self) -> Seq<u8>; }
impl XDisp for str { open spec fn xchars(&self) -> Seq<char> { self@ } open spec fn xdisp(&self) -> Seq<u8> { utf8(self.xchars()) } }
impl XDisp for String { open spec fn xchars(&self) -> Seq<char> { self@ } open spec fn xdisp(&self) -> Seq<u8> { utf8(self.xchars()) } }
impl XDisp for char { open spec fn xchars(&self) -> Seq<char> { seq![*self] } open spec fn xdisp(&self) -> Seq<u8> { utf8(self.xchars()) } }
impl XDisp for usize { open spec fn xchars(&self) -> Seq<char> { num_text(*self as int) } open spec fn xdisp(&self) -> Seq<u8> { utf8(self.xchars()) } }
impl XDisp for i32 { open spec fn xchars(&self) -> Seq<char> { num_text(*self as int) } open spec fn xdisp(&self) -> Seq<u8> { utf8(self.xchars()) } }
impl<'a, T: XDisp + ?Sized> XDisp for &'a T { open spec fn xchars(&self) -> Seq<char> { (**self).xchars() } open spec fn xdisp(&self) -> Seq<u8> { (**self).xdisp() } }
macro_rules! opaque_disp { ($($t:ty),*) => { verus!{ $(impl XDisp for $t { uninterp spec fn xchars(&self) -> Seq<char>; open spec fn xdisp(&self) -> Seq<u8> { utf8(self.xchars()) } })* } } }
opaque_disp!(crate::ext::qrcodegen::DataTooLong, crate::ext::std::io::Error, crate::ext::base64::DecodeError, crate::shim::json::Error, crate::ext::std::str::Utf8Error);
pub trait XBytesOf { spec fn xsrc_bytes(&self) -> Seq<u8>; }
impl XBytesOf for [u8] { open spec fn xsrc_bytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> XBytesOf for [u8; N] { open spec fn xsrc_bytes(&self) -> Seq<u8> { self@ } }
impl XBytesOf for Vec<u8> { open spec fn xsrc_bytes(&self) -> Seq<u8> { self@ } }
impl<'a, T: XBytesOf + ?Sized> XBytesOf for &'a T { open spec fn xsrc_bytes(&self) -> Seq<u8> { (**self).xsrc_bytes() } }
#[verifier::external_body] pub fn x_format_as(t: Ghost<Seq<u8>>, c: Ghost<Seq<char>>) -> (r: String) ensures utf8(r@) == t@, r@ == c@ { unimplemented!() }
#[verifier::external_body] pub fn x_concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
/// `unwrap` where the function may end the program (a terminal that cannot be read)
pub trait XUnwrap { type T; spec fn xok(&self) -> Option<Self::T>; fn x_unwrap(self) -> (r: Self::T) where Self: Sized ensures self.xok() == Some(r); }
impl<T> XUnwrap for Option<T> { type T = T; open spec fn xok(&self) -> Option<T> { *self } #[verifier::external_body] fn x_unwrap(self) -> T { unimplemented!() } }
impl<T, E> XUnwrap for Result<T, E> { type T = T; open spec fn xok(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } } #[verifier::external_body] fn x_unwrap(self) -> T { unimplemented!() } }

// Vectors ordered by a key computed for every element
#[verifier::external_body] pub fn x_take_vec<T>(v: &mut Vec<T>) -> (r: XIter<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
pub trait XKeyed<T>: Sized {
    spec fn xkv(&self) -> Seq<T>;
    fn x_sort_keys(&mut self, keys: Vec<String>) requires keys@.len() == old(self).xkv().len() ensures exists|p: Seq<int>| #[trigger] sorting(p, strings(keys@)) && final(self).xkv() == picked(old(self).xkv(), p);
    fn x_dedup_keys(&mut self, keys: Vec<String>) requires keys@.len() == old(self).xkv().len() ensures final(self).xkv() == dedup_by(old(self).xkv(), strings(keys@));
}
impl<T> XKeyed<T> for Vec<T> {
    open spec fn xkv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_sort_keys(&mut self, keys: Vec<String>) { unimplemented!() }
    #[verifier::external_body] fn x_dedup_keys(&mut self, keys: Vec<String>) { unimplemented!() }
}
#[verifier::external_body] pub fn x_panic() -> ! requires false { unimplemented!() }

/// Stands for the initializer of a static that is not verified
#[verifier::external_body] pub const fn x_any<T>() -> (r: T) ensures false { unsafe { core::mem::zeroed() } }

// Strings
pub trait XPat: Sized { spec fn xp(self) -> Seq<char>; }
impl<'a> XPat for &'a str { open spec fn xp(self) -> Seq<char> { self@ } }
impl<'a> XPat for &'a String { open spec fn xp(self) -> Seq<char> { self@ } }
impl XPat for char { open spec fn xp(self) -> Seq<char> { seq![self] } }
pub trait XStr {
    spec fn xsv(&self) -> Seq<char>;
    fn x_starts_with<P: XPat>(&self, p: P) -> (r: bool) ensures r == p.xp().is_prefix_of(self.xsv());
    fn x_ends_with<P: XPat>(&self, p: P) -> (r: bool) ensures r == p.xp().is_suffix_of(self.xsv());
    fn x_strip_prefix<'a, P: XPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures p.xp().is_prefix_of(self.xsv()) ==> (r matches Some(v) && v@ == self.xsv().skip(p.xp().len() as int)), !p.xp().is_prefix_of(self.xsv()) ==> r is None;
    fn x_strip_suffix<'a, P: XPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures p.xp().is_suffix_of(self.xsv()) ==> (r matches Some(v) && v@ == self.xsv().take(self.xsv().len() - p.xp().len())), !p.xp().is_suffix_of(self.xsv()) ==> r is None;
    fn x_trim_start_matches<'a, P: XPat>(&'a self, p: P) -> (r: &'a str) ensures r@ == trim_starts(self.xsv(), p.xp());
    fn x_find(&self, p: char) -> (r: Option<usize>)
        ensures self.xsv().contains(p) ==> (r matches Some(i) && i == vstd::utf8::encode_utf8(self.xsv().take(self.xsv().index_of_first(p)->0)).len()), !self.xsv().contains(p) ==> r is None;
    fn x_contains<P: XPat>(&self, p: P) -> (r: bool) ensures r == has_part(self.xsv(), p.xp());
    fn x_split_once<'a>(&'a self, p: char) -> (r: Option<(&'a str, &'a str)>)
        ensures cut(self.xsv(), p) is None ==> r is None, cut(self.xsv(), p) matches Some(c) ==> (r matches Some(v) && v.0@ == c.0 && v.1@ == c.1);
    fn x_split<'a>(&'a self, p: char) -> (r: XIter<&'a str>)
        ensures r@.len() == splits(self.xsv(), p).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == splits(self.xsv(), p)[i];
    fn x_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == trimmed(self.xsv());
    fn x_chars(&self) -> (r: XIter<char>) ensures r@ == self.xsv();
    fn x_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str)
        requires char_boundary(self.xsv(), a as int), char_boundary(self.xsv(), b as int), a <= b
        ensures vstd::utf8::encode_utf8(r@) == vstd::utf8::encode_utf8(self.xsv()).subrange(a as int, b as int), forall|t: Seq<char>| #[trigger] vstd::utf8::encode_utf8(t) == vstd::utf8::encode_utf8(self.xsv()).subrange(a as int, b as int) ==> t == r@;
    fn x_range_from<'a>(&'a self, a: usize) -> (r: &'a str)
        requires char_boundary(self.xsv(), a as int)
        ensures vstd::utf8::encode_utf8(r@) == vstd::utf8::encode_utf8(self.xsv()).skip(a as int), forall|t: Seq<char>| #[trigger] vstd::utf8::encode_utf8(t) == vstd::utf8::encode_utf8(self.xsv()).skip(a as int) ==> t == r@;
    fn x_range_to<'a>(&'a self, a: usize) -> (r: &'a str)
        requires char_boundary(self.xsv(), a as int)
        ensures vstd::utf8::encode_utf8(r@) == vstd::utf8::encode_utf8(self.xsv()).take(a as int), forall|t: Seq<char>| #[trigger] vstd::utf8::encode_utf8(t) == vstd::utf8::encode_utf8(self.xsv()).take(a as int) ==> t == r@;
    fn x_trim_start<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_left(self.xsv());
    fn x_trim_end<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_right(self.xsv());
    fn x_trim_end_matches<'a, P: XPat>(&'a self, p: P) -> (r: &'a str) ensures r@ == trim_ends(self.xsv(), p.xp());
    fn x_trim_matches<'a, P: XPat>(&'a self, p: P) -> (r: &'a str) ensures r@ == trim_ends(trim_starts(self.xsv(), p.xp()), p.xp());
    fn x_to_lowercase(&self) -> (r: String) ensures r@ == lower_text(self.xsv());
    fn x_to_uppercase(&self) -> (r: String) ensures r@ == upper_text(self.xsv());
    fn x_to_ascii_lowercase(&self) -> (r: String) ensures r@ == ascii_lower_text(self.xsv());
    fn x_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (ascii_lower_text(self.xsv()) == ascii_lower_text(o@));
    fn x_replace<P: XPat>(&self, p: P, by: &str) -> (r: String) ensures r@ == joined(splits_at(self.xsv(), p.xp()), by@);
    fn x_repeat(&self, n: usize) -> (r: String) ensures r@ == repeated(self.xsv(), n as nat);
    fn x_bytes(&self) -> (r: XIter<u8>) ensures r@ == utf8(self.xsv());
    fn x_lines<'a>(&'a self) -> (r: XIter<&'a str>)
        ensures r@.len() == lines_of(self.xsv()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(self.xsv())[i];
    fn x_to_ascii_uppercase(&self) -> (r: String) ensures r@ == ascii_upper_text(self.xsv());
    fn x_parse<T: XParse>(&self) -> (r: Result<T, XParseError>) ensures r matches Ok(v) ==> T::xparse(self.xsv()) == Some(v), r is Err ==> T::xparse(self.xsv()) is None;
}
pub trait XParse: Sized { spec fn xparse(s: Seq<char>) -> Option<Self>; }
pub uninterp spec fn parse_usize(s: Seq<char>) -> Option<usize>;
impl XParse for usize { open spec fn xparse(s: Seq<char>) -> Option<usize> { parse_usize(s) } }
pub struct XParseError { pub e: u8 }
impl XStr for str {
    open spec fn xsv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_starts_with<P: XPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn x_ends_with<P: XPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn x_strip_prefix<'a, P: XPat>(&'a self, p: P) -> Option<&'a str> { unimplemented!() }
    #[verifier::external_body] fn x_strip_suffix<'a, P: XPat>(&'a self, p: P) -> Option<&'a str> { unimplemented!() }
    #[verifier::external_body] fn x_trim_start_matches<'a, P: XPat>(&'a self, p: P) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_find(&self, p: char) -> Option<usize> { unimplemented!() }
    #[verifier::external_body] fn x_contains<P: XPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn x_split_once<'a>(&'a self, p: char) -> Option<(&'a str, &'a str)> { unimplemented!() }
    #[verifier::external_body] fn x_split<'a>(&'a self, p: char) -> XIter<&'a str> { unimplemented!() }
    #[verifier::external_body] fn x_trim<'a>(&'a self) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_chars(&self) -> XIter<char> { unimplemented!() }
    #[verifier::external_body] fn x_range<'a>(&'a self, a: usize, b: usize) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_range_from<'a>(&'a self, a: usize) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_range_to<'a>(&'a self, a: usize) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_trim_start<'a>(&'a self) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_trim_end<'a>(&'a self) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_trim_end_matches<'a, P: XPat>(&'a self, p: P) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_trim_matches<'a, P: XPat>(&'a self, p: P) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_to_lowercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn x_to_uppercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_lowercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn x_eq_ignore_ascii_case(&self, o: &str) -> bool { unimplemented!() }
    #[verifier::external_body] fn x_replace<P: XPat>(&self, p: P, by: &str) -> String { unimplemented!() }
    #[verifier::external_body] fn x_repeat(&self, n: usize) -> String { unimplemented!() }
    #[verifier::external_body] fn x_bytes(&self) -> XIter<u8> { unimplemented!() }
    #[verifier::external_body] fn x_lines<'a>(&'a self) -> XIter<&'a str> { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_uppercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn x_parse<T: XParse>(&self) -> Result<T, XParseError> { unimplemented!() }
}
impl XStr for String {
    open spec fn xsv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_starts_with<P: XPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn x_ends_with<P: XPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn x_strip_prefix<'a, P: XPat>(&'a self, p: P) -> Option<&'a str> { unimplemented!() }
    #[verifier::external_body] fn x_strip_suffix<'a, P: XPat>(&'a self, p: P) -> Option<&'a str> { unimplemented!() }
    #[verifier::external_body] fn x_trim_start_matches<'a, P: XPat>(&'a self, p: P) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_find(&self, p: char) -> Option<usize> { unimplemented!() }
    #[verifier::external_body] fn x_contains<P: XPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn x_split_once<'a>(&'a self, p: char) -> Option<(&'a str, &'a str)> { unimplemented!() }
    #[verifier::external_body] fn x_split<'a>(&'a self, p: char) -> XIter<&'a str> { unimplemented!() }
    #[verifier::external_body] fn x_trim<'a>(&'a self) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_chars(&self) -> XIter<char> { unimplemented!() }
    #[verifier::external_body] fn x_range<'a>(&'a self, a: usize, b: usize) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_range_from<'a>(&'a self, a: usize) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_range_to<'a>(&'a self, a: usize) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_trim_start<'a>(&'a self) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_trim_end<'a>(&'a self) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_trim_end_matches<'a, P: XPat>(&'a self, p: P) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_trim_matches<'a, P: XPat>(&'a self, p: P) -> &'a str { unimplemented!() }
    #[verifier::external_body] fn x_to_lowercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn x_to_uppercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_lowercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn x_eq_ignore_ascii_case(&self, o: &str) -> bool { unimplemented!() }
    #[verifier::external_body] fn x_replace<P: XPat>(&self, p: P, by: &str) -> String { unimplemented!() }
    #[verifier::external_body] fn x_repeat(&self, n: usize) -> String { unimplemented!() }
    #[verifier::external_body] fn x_bytes(&self) -> XIter<u8> { unimplemented!() }
    #[verifier::external_body] fn x_lines<'a>(&'a self) -> XIter<&'a str> { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_uppercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn x_parse<T: XParse>(&self) -> Result<T, XParseError> { unimplemented!() }
}
pub fn x_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub trait XString { fn x_pop(&mut self) -> Option<char>; }
impl XString for String {
    #[verifier::external_body] fn x_pop(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
}
pub trait XUpper: Sized { fn x_to_ascii_uppercase(&self) -> Self; fn x_to_ascii_lowercase(&self) -> Self; fn x_eq_ignore_ascii_case(&self, o: &Self) -> bool; }
impl XUpper for u8 {
    #[verifier::external_body] fn x_to_ascii_uppercase(&self) -> (r: u8) ensures r == upper(*self) { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_lowercase(&self) -> (r: u8) ensures r == lower(*self) { unimplemented!() }
    #[verifier::external_body] fn x_eq_ignore_ascii_case(&self, o: &u8) -> (r: bool) ensures r == (lower(*self) == lower(*o)) { unimplemented!() }
}
impl XUpper for char {
    #[verifier::external_body] fn x_to_ascii_uppercase(&self) -> (r: char) ensures r == ascii_upper(*self) { unimplemented!() }
    #[verifier::external_body] fn x_to_ascii_lowercase(&self) -> (r: char) ensures r == ascii_lower(*self) { unimplemented!() }
    #[verifier::external_body] fn x_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) ensures r == (ascii_lower(*self) == ascii_lower(*o)) { unimplemented!() }
}
#[verifier::external_body] pub fn x_zip<A, B>(a: XIter<A>, b: XIter<B>) -> (r: XIter<(A, B)>) ensures r@.len() == (if a@.len() <= b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
#[verifier::external_body] pub fn x_chain<A>(a: XIter<A>, b: XIter<A>) -> (r: XIter<A>) ensures r@ == a@ + b@ { unimplemented!() }
pub trait XResult<T, E> { fn x_or<F>(self, o: Result<T, F>) -> Result<T, F>; }
impl<T, E> XResult<T, E> for Result<T, E> {
    fn x_or<F>(self, o: Result<T, F>) -> (r: Result<T, F>) ensures self is Ok ==> r == Ok::<T, F>(self->Ok_0), self is Err ==> r == o { match self { Ok(v) => Ok(v), Err(_e) => o } }
}
pub trait XUnwrapOr<T>: Sized { spec fn xuo(self, d: T) -> T; fn x_unwrap_or(self, d: T) -> (r: T) ensures r == self.xuo(d); }
impl<T> XUnwrapOr<T> for Option<T> { open spec fn xuo(self, d: T) -> T { match self { Some(v) => v, None => d } } fn x_unwrap_or(self, d: T) -> T { match self { Some(v) => v, None => d } } }
impl<T, E> XUnwrapOr<T> for Result<T, E> { open spec fn xuo(self, d: T) -> T { match self { Ok(v) => v, Err(_) => d } } fn x_unwrap_or(self, d: T) -> T { match self { Ok(v) => v, Err(_e) => d } } }
pub trait XAsDeref { spec fn xad(&self) -> Option<Seq<char>>; fn x_as_deref<'a>(&'a self) -> (r: Option<&'a str>) ensures r is Some <==> self.xad() is Some, r is Some ==> r->0@ == self.xad()->0; }
impl XAsDeref for Option<String> { open spec fn xad(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } } #[verifier::external_body] fn x_as_deref<'a>(&'a self) -> Option<&'a str> { unimplemented!() } }
pub trait XJoin { spec fn xj(&self) -> Seq<Seq<char>>; fn x_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.xj(), sep@), forall|t: Seq<Seq<char>>| t.len() == self.xj().len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == self.xj()[i]) ==> r@ == #[trigger] joined(t, sep@), self.xj().len() == 1 ==> r@ == self.xj()[0], self.xj().len() == 2 ==> r@ == self.xj()[0] + sep@ + self.xj()[1], self.xj().len() == 3 ==> r@ == self.xj()[0] + sep@ + self.xj()[1] + sep@ + self.xj()[2]; }
impl<'a> XJoin for [&'a str] { open spec fn xj(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i]@) } #[verifier::external_body] fn x_join(&self, sep: &str) -> String { unimplemented!() } }
impl<'a, const N: usize> XJoin for [&'a str; N] { open spec fn xj(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i]@) } #[verifier::external_body] fn x_join(&self, sep: &str) -> String { unimplemented!() } }
impl<'a> XJoin for Vec<&'a str> { open spec fn xj(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i]@) } #[verifier::external_body] fn x_join(&self, sep: &str) -> String { unimplemented!() } }
impl XJoin for Vec<String> { open spec fn xj(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i]@) } #[verifier::external_body] fn x_join(&self, sep: &str) -> String { unimplemented!() } }

pub assume_specification [std::string::String::len] (_0: &std::string::String) -> (r: usize) ensures r == vstd::utf8::encode_utf8(_0@).len();
pub assume_specification [std::string::String::as_bytes] (_0: &std::string::String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(_0@);
pub assume_specification [std::string::String::with_capacity] (_0: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub trait XToVec<T> { spec fn xtv(&self) -> Seq<T>; fn x_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.xtv(); }
impl<T: Copy> XToVec<T> for [T] { open spec fn xtv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn x_to_vec(&self) -> Vec<T> { unimplemented!() } }
impl<T: Copy, const N: usize> XToVec<T> for [T; N] { open spec fn xtv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn x_to_vec(&self) -> Vec<T> { unimplemented!() } }

/// JSON, at the level of the values written and read
/// Comparing strings, whatever the number of references, compares their text
#[verifier::external_body] pub fn x_is_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub mod eqs {
use vstd::prelude::*; use vstd::std_specs::cmp::*;
pub broadcast axiom fn eq_ref_o() ensures #[trigger] <&String as PartialEqSpec<&String>>::obeys_eq_spec();
pub broadcast axiom fn eq_ref(x: &&String, y: &&String) ensures #[trigger] <&String as PartialEqSpec<&String>>::eq_spec(x, y) <==> x@ == y@;
pub broadcast axiom fn eq_str_o() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn eq_str(x: &String, y: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(x, y) <==> x@ == y@;
pub broadcast axiom fn eq_rstr_o() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn eq_rstr(x: &String, y: &&str) ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(x, y) <==> x@ == y@;
pub broadcast group strings { eq_ref_o, eq_ref, eq_str_o, eq_str, eq_rstr_o, eq_rstr }
}
pub mod json {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::storage_types::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
    pub trait Serialize {}
    pub trait Deserialize {}
    pub fn enumset_serialization() {}
    pub fn const_serializable() {}
    pub trait Serializable { spec fn jv(&self) -> JV; }
    pub trait Deserializable: Sized { spec fn jt() -> JT; spec fn djv(&self) -> JV; }
    impl Serializable for String { open spec fn jv(&self) -> JV { JV::Text(self@) } }
    impl Deserializable for String { open spec fn jt() -> JT { JT::Text } open spec fn djv(&self) -> JV { JV::Text(self@) } }
    impl Serializable for Site { open spec fn jv(&self) -> JV { JV::Site(self@) } }
    impl Deserializable for Site { open spec fn jt() -> JT { JT::Site } open spec fn djv(&self) -> JV { JV::Site(self@) } }
    impl Serializable for Password { open spec fn jv(&self) -> JV { JV::Pw(self@) } }
    impl Deserializable for Password { open spec fn jt() -> JT { JT::Pw } open spec fn djv(&self) -> JV { JV::Pw(self@) } }
    impl Serializable for crate::storage_io::FileIO { open spec fn jv(&self) -> JV { JV::File(texts(self.data@)) } }
    impl Deserializable for crate::storage_io::FileIO { open spec fn jt() -> JT { JT::File } open spec fn djv(&self) -> JV { JV::File(texts(self.data@)) } }
    #[verifier::external_body] pub fn to_vec<T: Serializable + ?Sized>(v: &T) -> (r: Result<Vec<u8>, Error>) ensures r is Ok, r->Ok_0@ == json_enc(v.jv()) { unimplemented!() }
    #[verifier::external_body] pub fn to_string<T: Serializable + ?Sized>(v: &T) -> (r: Result<String, Error>) ensures r is Ok, vstd::utf8::encode_utf8(r->Ok_0@) == json_enc(v.jv()) { unimplemented!() }
    #[verifier::external_body] pub fn from_slice<T: Deserializable>(v: &[u8]) -> (r: Result<T, Error>) ensures r matches Ok(x) ==> json_dec(T::jt(), v@) == Some(x.djv()), r is Err ==> json_dec(T::jt(), v@) is None { unimplemented!() }
    #[verifier::external_body] pub fn from_str<T: Deserializable>(v: &str) -> (r: Result<T, Error>) ensures r matches Ok(x) ==> json_dec(T::jt(), vstd::utf8::encode_utf8(v@)) == Some(x.djv()), r is Err ==> json_dec(T::jt(), vstd::utf8::encode_utf8(v@)) is None { unimplemented!() }
}
} // mod shim

// Dependencies
pub mod ext {
pub mod aes_gcm {
    use vstd::prelude::*; use crate::spec::*;
    pub struct Key { pub k: Vec<u8> }
    pub struct Nonce { pub n: Vec<u8> }
    pub struct Aes256Gcm { pub k: Ghost<Seq<u8>> }
    #[derive(Debug)] pub struct Error { pub e: u8 }
    impl Key { #[verifier::external_body] pub fn from_slice(k: &[u8]) -> (r: &Key) requires k@.len() == 32 ensures r.k@ == k@ { unimplemented!() } }
    impl Nonce { #[verifier::external_body] pub fn from_slice(k: &[u8]) -> (r: &Nonce) requires k@.len() == 12 ensures r.n@ == k@ { unimplemented!() } }
    impl Aes256Gcm {
        #[verifier::external_body] pub fn new(k: &Key) -> (r: Aes256Gcm) requires k.k@.len() == 32 ensures r.k@ == k.k@ { unimplemented!() }
        #[verifier::external_body] pub fn encrypt(&self, n: &Nonce, p: &[u8]) -> (r: Result<Vec<u8>, Error>) ensures r is Ok, r->Ok_0@ == aead_enc(self.k@, n.n@, p@) { unimplemented!() }
        #[verifier::external_body] pub fn decrypt(&self, n: &Nonce, c: &[u8]) -> (r: Result<Vec<u8>, Error>) ensures aead_dec(self.k@, n.n@, c@) matches Some(p) ==> r is Ok && r->Ok_0@ == p, aead_dec(self.k@, n.n@, c@) is None ==> r is Err { unimplemented!() }
    }
    pub mod aead { pub trait Aead {} pub trait NewAead {} pub trait KeyInit {} }
}
pub mod sha2 { pub struct Sha256 { pub x: u8 } }
pub mod hmac {
    use vstd::prelude::*; use crate::spec::*;
    pub trait Mac {}
    #[verifier::external_body] #[verifier::reject_recursive_types(D)]
    pub struct Hmac<D> { d: D }
    pub struct Out { pub b: Ghost<Seq<u8>> }
    pub struct Digest { pub b: Ghost<Seq<u8>> }
    #[derive(Debug)] pub struct InvalidLength { pub e: u8 }
    impl Hmac<crate::ext::sha2::Sha256> {
        pub uninterp spec fn key(&self) -> Seq<u8>;
        pub uninterp spec fn data(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new_from_slice(k: &[u8]) -> (r: Result<Self, InvalidLength>) ensures r is Ok, r->Ok_0.key() == k@, r->Ok_0.data() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, d: &[u8]) ensures final(self).key() == old(self).key(), final(self).data() == old(self).data() + d@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (r: Out) ensures r.b@ == hmac_of(self.key(), self.data()) { unimplemented!() }
    }
    impl Out { #[verifier::external_body] pub fn into_bytes(self) -> (r: Digest) ensures r.b@ == self.b@ { unimplemented!() } }
}
pub mod rand {
    use vstd::prelude::*; use crate::spec::*;
    pub trait RngOut { spec fn rb(&self) -> Seq<u8>; }
    impl<const N: usize> RngOut for [u8; N] { open spec fn rb(&self) -> Seq<u8> { self@ } }
    pub trait Rng { fn gen<T: RngOut>(&mut self) -> (r: T) ensures from_rng(r.rb()); }
    pub mod rngs { use vstd::prelude::*; #[verifier::external_body] pub struct ThreadRng { x: u8 } }
    impl Rng for rngs::ThreadRng { #[verifier::external_body] fn gen<T: RngOut>(&mut self) -> T { unimplemented!() } }
    #[verifier::external_body] pub fn thread_rng() -> rngs::ThreadRng { unimplemented!() }
}
pub mod scrypt {
    use vstd::prelude::*; use crate::spec::*;
    pub struct Params { pub n: u8, pub r: u32, pub p: u32 }
    #[derive(Debug)] pub struct InvalidParams { pub e: u8 }
    #[derive(Debug)] pub struct InvalidOutputLen { pub e: u8 }
    impl Params { #[verifier::external_body] pub fn new(log_n: u8, r: u32, p: u32) -> (res: Result<Params, InvalidParams>)
        ensures 0 < log_n < 64 && 0 < r < 1000 && 0 < p < 1000 && log_n < r * 16 ==> res is Ok && res->Ok_0 == (Params { n: log_n, r: r, p: p }) { unimplemented!() } }
    #[verifier::external_body]
    pub fn scrypt(pw: &[u8], salt: &[u8], params: &Params, out: &mut [u8]) -> (res: Result<(), InvalidOutputLen>)
        ensures final(out)@.len() == old(out)@.len(), 0 < old(out)@.len() <= 0x1f_ffff_ffe0 ==> res is Ok && final(out)@ == scrypt_of(pw@, salt@, params.n as int, params.r as int, params.p as int, old(out)@.len()) && computed(final(out)@) { unimplemented!() }
}
pub mod secrecy {
    use vstd::prelude::*;
    pub struct Secret<T> { pub inner: T }
    pub type SecretString = Secret<String>;
    pub type SecretVec<T> = Secret<Vec<T>>;
    pub trait ExposeSecret {}
    pub trait Zeroize {}
    impl<T> Secret<T> {
        pub fn new(t: T) -> (r: Self) ensures r.inner == t { Secret { inner: t } }
        pub fn expose_secret(&self) -> (r: &T) ensures *r == self.inner { &self.inner }
    }
    impl Clone for Secret<String> { fn clone(&self) -> (r: Self) ensures r.inner@ == self.inner@ { Secret { inner: self.inner.clone() } } }
    impl Clone for Secret<Vec<u8>> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.inner@ == self.inner@ { unimplemented!() } }
}
pub mod base64 {
    use vstd::prelude::*; use crate::spec::*;
    #[verifier::external_body] #[derive(Debug)] pub struct DecodeError { e: u8 }
    pub trait XBytes { spec fn xb(&self) -> Seq<u8>; }
    impl<const N: usize> XBytes for [u8; N] { open spec fn xb(&self) -> Seq<u8> { self@ } }
    impl XBytes for Vec<u8> { open spec fn xb(&self) -> Seq<u8> { self@ } }
    impl XBytes for [u8] { open spec fn xb(&self) -> Seq<u8> { self@ } }
    impl XBytes for str { open spec fn xb(&self) -> Seq<u8> { utf8(self@) } }
    impl XBytes for String { open spec fn xb(&self) -> Seq<u8> { utf8(self@) } }
    impl XBytes for crate::ext::hmac::Digest { open spec fn xb(&self) -> Seq<u8> { self.b@ } }
    impl<'a, T: XBytes + ?Sized> XBytes for &'a T { open spec fn xb(&self) -> Seq<u8> { (**self).xb() } }
    #[verifier::external_body] pub fn encode<T: XBytes>(t: T) -> (r: String) ensures r@ == b64(t.xb()) { unimplemented!() }
    #[verifier::external_body] pub fn decode<T: XBytes>(t: T) -> (r: Result<Vec<u8>, DecodeError>)
        ensures b64_dec(t.xb()) matches Some(v) ==> r is Ok && r->Ok_0@ == v, b64_dec(t.xb()) is None ==> r is Err { unimplemented!() }
}
pub mod enumset {
    use vstd::prelude::*; use vstd::std_specs::ops::*; use crate::spec::*;
    use crate::storage_types::CharacterType;
    #[verifier::external_body] #[verifier::reject_recursive_types(T)]
    pub struct EnumSet<T> { x: core::marker::PhantomData<T> }
    impl<T> View for EnumSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
    impl<T: Copy> Copy for EnumSet<T> {}
    impl<T: Copy> Clone for EnumSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl EnumSet<CharacterType> {
        #[verifier::external_body] pub fn empty() -> (r: Self) ensures r@ == Set::<CharacterType>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<CharacterType>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn all() -> (r: Self) ensures r@ == cs_all() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == cs_len(self@) { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (cs_len(self@) == 0) { unimplemented!() }
        #[verifier::external_body] pub fn contains(&self, t: CharacterType) -> (r: bool) ensures r == self@.contains(t) { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, t: CharacterType) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
        #[verifier::external_body] pub fn remove(&mut self, t: CharacterType) -> (r: bool) ensures final(self)@ == old(self)@.remove(t), r == old(self)@.contains(t) { unimplemented!() }
        #[verifier::external_body] pub fn difference(&self, o: Self) -> (r: Self) ensures r@ == self@.difference(o@) { unimplemented!() }
        #[verifier::external_body] pub fn union(&self, o: Self) -> (r: Self) ensures r@ == self@.union(o@) { unimplemented!() }
        #[verifier::external_body] pub fn intersection(&self, o: Self) -> (r: Self) ensures r@ == self@.intersect(o@) { unimplemented!() }
        #[verifier::external_body] pub fn is_superset(&self, o: Self) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
        #[verifier::external_body] pub fn is_subset(&self, o: Self) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    }
    impl SubSpecImpl<EnumSet<CharacterType>> for EnumSet<CharacterType> {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: Self) -> bool { true }
        open spec fn sub_spec(self, rhs: Self) -> Self { arbitrary() }
    }
    impl ::std::ops::Sub for EnumSet<CharacterType> { type Output = Self; #[verifier::external_body] fn sub(self, rhs: Self) -> (r: Self) ensures r@ == self@.difference(rhs@) { unimplemented!() } }
}
pub mod wildmatch {
    use vstd::prelude::*; use crate::spec::*;
    pub struct WildMatch { pub p: Ghost<Seq<char>> }
    impl WildMatch {
        #[verifier::external_body] pub fn new(p: &str) -> (r: WildMatch) ensures r.p@ == p@ { unimplemented!() }
        #[verifier::external_body] pub fn matches(&self, s: &str) -> (r: bool) ensures r == wild(self.p@, s@) { unimplemented!() }
    }
}
pub mod serde { pub trait Serialize {} pub trait Deserialize {} }
pub mod std {
    pub mod collections {
        use vstd::prelude::*; use crate::spec::*; use crate::shim::*;
        #[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
        pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
        impl<V> View for HashMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
        impl<V> HashMap<String, V> {
            #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
            #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
            #[verifier::external_body] pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a V>) ensures self@.dom().contains(k@) ==> r == Some(&self@[k@]), !self@.dom().contains(k@) ==> r is None { unimplemented!() }
            #[verifier::external_body] pub fn x_get_mut<'a>(&'a mut self, k: &str) -> (r: Option<&'a mut V>)
                ensures !old(self)@.dom().contains(k@) ==> r is None && final(self)@ == old(self)@,
                    old(self)@.dom().contains(k@) ==> (r matches Some(v) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v))) { unimplemented!() }
            #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), r is Some <==> old(self)@.dom().contains(k@) { unimplemented!() }
            #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.dom().contains(k@), r matches Some(v) ==> v == old(self)@[k@] { unimplemented!() }
            #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
            #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
            #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<Seq<char>>::empty()) { unimplemented!() }
            #[verifier::external_body] pub fn keys<'a>(&'a self) -> (r: XIter<&'a String>) ensures order_of(names(r@), self@.dom()) { unimplemented!() }
        }
        impl Clone for HashMap<String, String> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
    }
    pub mod path {
        use vstd::prelude::*; use crate::spec::*;
        #[verifier::external_body] pub struct PathBuf { p: u8 }
        /// Both kinds of paths are one type, `&PathBuf` is taken for `&Path`
        pub type Path = PathBuf;
        impl View for PathBuf { type V = PathV; uninterp spec fn view(&self) -> PathV; }
        impl PathBuf {
            #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures r matches Some(p) ==> path_parent(self@) == Some(p@), r is None ==> path_parent(self@) is None { unimplemented!() }
            #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body] pub fn to_string_lossy(&self) -> String { unimplemented!() }
            #[verifier::external_body] pub fn push(&mut self, s: &str) { unimplemented!() }
            #[verifier::external_body] pub fn display(&self) -> String { unimplemented!() }
            #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
        }
        impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
        pub trait XPath { spec fn xpath(&self) -> PathV; }
        impl XPath for PathBuf { open spec fn xpath(&self) -> PathV { self@ } }
        impl<'a, T: XPath + ?Sized> XPath for &'a T { open spec fn xpath(&self) -> PathV { (**self).xpath() } }
    }
    pub mod fs {
        use vstd::prelude::*; use crate::spec::*; use super::path::*;
        pub trait XText { spec fn xt(&self) -> Seq<u8>; }
        impl XText for str { open spec fn xt(&self) -> Seq<u8> { utf8(self@) } }
        impl XText for String { open spec fn xt(&self) -> Seq<u8> { utf8(self@) } }
        impl XText for [u8] { open spec fn xt(&self) -> Seq<u8> { self@ } }
        impl<'a, T: XText + ?Sized> XText for &'a T { open spec fn xt(&self) -> Seq<u8> { (**self).xt() } }
        #[verifier::external_body] pub fn read_to_string<P: XPath>(p: P) -> (r: Result<String, super::io::Error>) ensures r matches Ok(s) ==> fs_read(p.xpath(), utf8(s@)), r is Err ==> fs_unreadable(p.xpath()) { unimplemented!() }
        #[verifier::external_body] pub fn create_dir<P: XPath>(p: P) -> (r: Result<(), super::io::Error>) requires saving() ensures r is Ok ==> fs_dir(p.xpath()) { unimplemented!() }
        #[verifier::external_body] pub fn create_dir_all<P: XPath>(p: P) -> (r: Result<(), super::io::Error>) requires saving() ensures r is Ok ==> fs_dir(p.xpath()), r is Err ==> save_failed() { unimplemented!() }
        #[verifier::external_body] pub fn write<P: XPath, C: XText>(p: P, c: C) -> (r: Result<(), super::io::Error>)
            requires saving(), path_parent(p.xpath()) matches Some(d) ==> fs_dir(d)
            ensures r is Ok ==> fs_wrote(p.xpath(), c.xt()), r is Err ==> save_failed() { unimplemented!() }
    }
    pub mod io {
        use vstd::prelude::*; use crate::spec::*;
        #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
        pub trait Write {} pub trait Read {}
        #[verifier::external_body] pub struct Stdout { e: u8 }
        #[verifier::external_body] pub fn stdout() -> Stdout { unimplemented!() }
        impl Stdout { #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>) ensures r is Ok { unimplemented!() } }
    }
    pub mod str {
        use vstd::prelude::*; use crate::spec::*;
        #[verifier::external_body] #[derive(Debug)] pub struct Utf8Error { e: u8 }
        #[verifier::external_body] pub fn from_utf8(v: &[u8]) -> (r: Result<&str, Utf8Error>) ensures r matches Ok(s) ==> utf8(s@) == v@, r is Err ==> !is_utf8(v@) { unimplemented!() }
    }
}
pub mod question {
    use vstd::prelude::*; use crate::spec::*; use crate::shim::*; use vstd::std_specs::cmp::*;
    pub enum Answer { RESPONSE(String), YES, NO }
    pub struct Question { pub def: Option<Answer> }
    impl PartialEqSpecImpl for Answer {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Answer) -> bool { match (*self, *o) { (Answer::YES, Answer::YES) => true, (Answer::NO, Answer::NO) => true, (Answer::RESPONSE(a), Answer::RESPONSE(b)) => a@ == b@, _ => false } }
    }
    impl PartialEq for Answer { #[verifier::external_body] fn eq(&self, o: &Answer) -> bool { unimplemented!() } }
    impl Question {
        #[verifier::external_body] pub fn new(q: &str) -> (r: Question) ensures r.def is None { unimplemented!() }
        #[verifier::external_body] pub fn default(self, a: Answer) -> (r: Question) ensures r.def == Some(a) { unimplemented!() }
        #[verifier::external_body] pub fn show_defaults(self) -> (r: Question) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn confirm(self) -> (r: Answer)
            ensures self.def != Some(Answer::YES) && r is YES ==> user_consented(), self.def is None || self.def->0 is YES || self.def->0 is NO ==> r is YES || r is NO { unimplemented!() }
        #[verifier::external_body] pub fn ask(self) -> (r: Option<Answer>) { unimplemented!() }
    }
}
pub mod io_streams {
    use vstd::prelude::*; use crate::spec::*; use crate::shim::*;
    use super::std::io::Error;
    /// Terminal: `out` is what was written through this writer.
    pub struct StreamWriter { pub out: Ghost<Seq<u8>> }
    pub struct StreamReader { pub e: u8 }
    impl StreamWriter {
        #[verifier::external_body] pub fn stdout() -> (r: Result<StreamWriter, Error>) ensures r is Ok, r->Ok_0.out@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>) ensures r is Ok, final(self).out@ == old(self).out@ + b@ { unimplemented!() }
        #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>) ensures r is Ok, final(self).out@ == old(self).out@ { unimplemented!() }
    }
    impl StreamReader {
        #[verifier::external_body] pub fn stdin() -> (r: Result<StreamReader, Error>) ensures r is Ok { unimplemented!() }
        #[verifier::external_body] pub fn read(&mut self, b: &mut [u8; 1]) -> (r: Result<usize, Error>) ensures r matches Ok(n) ==> n <= 1 { unimplemented!() }
    }
}
pub mod qrcodegen {
    use vstd::prelude::*; use crate::spec::*;
    pub enum QrCodeEcc { Low, Medium, Quartile, High }
    #[verifier::external_body] pub struct QrCode { e: u8 }
    #[verifier::external_body] #[derive(Debug)] pub struct DataTooLong { e: u8 }
    impl QrCode {
        pub uninterp spec fn view(&self) -> QrV;
        #[verifier::external_body] pub fn encode_text(t: &str, ecc: QrCodeEcc) -> (r: Result<QrCode, DataTooLong>) ensures r matches Ok(q) ==> q@ == (QrV { text: t@, level: ecc }) { unimplemented!() }
        #[verifier::external_body] pub fn size(&self) -> (r: i32) ensures r == qr_size(self@), 21 <= r <= 177 { unimplemented!() }
        #[verifier::external_body] pub fn get_module(&self, x: i32, y: i32) -> (r: bool) ensures r == qr_module(self@, x as int, y as int) { unimplemented!() }
    }
}
pub mod rpassword {
    use vstd::prelude::*;
    #[verifier::external_body] pub fn prompt_password(p: &str) -> (r: Result<String, super::std::io::Error>) ensures r is Ok { unimplemented!() }
}
pub mod app_dirs2 {
    use vstd::prelude::*;
    pub struct AppInfo { pub name: &'static str, pub author: &'static str }
    pub enum AppDataType { UserConfig, UserData, UserCache, SharedData, SharedConfig }
    #[verifier::external_body] #[derive(Debug)] pub struct AppDirsError { e: u8 }
    #[verifier::external_body] pub fn get_app_root(t: AppDataType, a: &AppInfo) -> (r: Result<super::std::path::PathBuf, AppDirsError>) { unimplemented!() }
}
pub mod clap {
    use vstd::prelude::*; use crate::spec::*; use crate::shim::*;
    pub trait Parser {} pub trait Subcommand {}
    /// A command: what its words are and which subcommands there are next to the declared ones. Help texts are left out.
    pub struct Command<'help> { pub v: Ghost<CmdV>, pub p: core::marker::PhantomData<&'help u8> }
    pub type App<'help> = Command<'help>;
    pub struct SubsMut<'a> { pub p: core::marker::PhantomData<&'a u8> }
    impl<'a> SubsMut<'a> { #[verifier::external_body] pub fn x_next<'h>(&mut self) -> Option<&'a mut Command<'h>> { unimplemented!() } }
    pub struct ArgMatches { pub v: Ghost<MatchV> }
    #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
    impl<'help> Clone for Command<'help> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl<'help> Command<'help> {
        #[verifier::external_body] pub fn new(name: &str) -> (r: Command<'help>) ensures r.v@ == (CmdV { name: name@, no_binary: false, subs: Set::empty() }) { unimplemented!() }
        #[verifier::external_body] pub fn bin_name(self, s: &str) -> (r: Self) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn about(self, s: &str) -> (r: Self) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn hide(self, b: bool) -> (r: Self) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn help_template(self, s: &str) -> (r: Self) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn disable_help_flag(self, b: bool) -> (r: Self) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn disable_version_flag(self, b: bool) -> (r: Self) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn no_binary_name(self, b: bool) -> (r: Self) ensures r.v@ == (CmdV { no_binary: b, ..self.v@ }) { unimplemented!() }
        #[verifier::external_body] pub fn subcommand(self, c: Command<'help>) -> (r: Self) ensures r.v@ == (CmdV { subs: self.v@.subs.insert(c.v@.name), ..self.v@ }) { unimplemented!() }
        #[verifier::external_body] pub fn mut_subcommand<F: FnOnce(Command<'help>) -> Command<'help>>(self, name: &str, f: F) -> (r: Self) requires forall|c: Command<'help>| f.requires((c,)) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn get_subcommands_mut<'a>(&'a mut self) -> (r: SubsMut<'a>) ensures *final(self) == *old(self) { unimplemented!() }
        #[verifier::external_body] pub fn try_get_matches_from(self, words: Vec<String>) -> (r: Result<ArgMatches, Error>)
            ensures ({ let w = if self.v@.no_binary { strings(words@) } else { strings(words@).skip(1) };
                &&& (r is Ok <==> understood(w, self.v@.subs))
                &&& (r matches Ok(m) ==> m.v@ == (MatchV { words: w }))
            }) { unimplemented!() }
    }
    impl ArgMatches {
        #[verifier::external_body] pub fn subcommand(&self) -> (r: Option<(&str, &ArgMatches)>) ensures r is Some <==> sub_name(self.v@.words) is Some, r matches Some((n, _)) ==> sub_name(self.v@.words) == Some(n@) { unimplemented!() }
        #[verifier::external_body] pub fn subcommand_name(&self) -> (r: Option<&str>) ensures r is Some <==> sub_name(self.v@.words) is Some, r matches Some(n) ==> sub_name(self.v@.words) == Some(n@) { unimplemented!() }
        #[verifier::external_body] pub fn subcommand_matches(&self, n: &str) -> (r: Option<&ArgMatches>) ensures r is Some <==> sub_name(self.v@.words) == Some(n@) { unimplemented!() }
    }
    pub trait CommandFactory: Sized { fn command<'help>() -> (r: Command<'help>) ensures !r.v@.no_binary, r.v@.subs == Set::<Seq<char>>::empty(); }
    pub trait FromArgMatches: Sized { spec fn meant(&self, words: Seq<Seq<char>>) -> bool; fn from_arg_matches(m: &ArgMatches) -> (r: Result<Self, Error>) ensures r matches Ok(a) ==> a.meant(m.v@.words), r is Err ==> no_command(m.v@.words); }
}
pub mod shellwords {
    use vstd::prelude::*; use crate::spec::*; use crate::shim::*;
    #[verifier::external_body] #[derive(Debug)] pub struct MismatchedQuotes { e: u8 }
    #[verifier::external_body] pub fn split(line: &str) -> (r: Result<Vec<String>, MismatchedQuotes>) ensures r matches Ok(v) ==> words_of(line@) == Some(strings(v@)), r is Err ==> words_of(line@) is None { unimplemented!() }
}
pub mod rustyline {
    pub mod error {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct Other { e: u8 }
        pub enum ReadlineError { Io(crate::ext::std::io::Error), Eof, Interrupted, Utf8Error, Other(Other) }
    }
    use vstd::prelude::*; use crate::spec::*;
    use error::ReadlineError;
    pub type Result<T> = core::result::Result<T, ReadlineError>;
    #[verifier::external_body] #[verifier::reject_recursive_types(H)] pub struct Editor<H> { h: core::marker::PhantomData<H> }
    impl<H> Editor<H> {
        #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
        #[verifier::external_body] pub fn load_history(&mut self, p: &crate::ext::std::path::PathBuf) -> Result<()> { unimplemented!() }
        #[verifier::external_body] pub fn save_history(&mut self, p: &crate::ext::std::path::PathBuf) -> Result<()> { unimplemented!() }
        #[verifier::external_body] pub fn add_history_entry(&mut self, line: String) -> bool { unimplemented!() }
        #[verifier::external_body] pub fn readline(&mut self, prompt: &str) -> (r: Result<String>) ensures r matches Err(ReadlineError::Eof) ==> at_eof() { unimplemented!() }
    }
}
} // mod ext

## Containers (C22)
%mod container
%raw
use vstd::seq::Seq as Sq;
%impl trait Container
spec fn elems(&self) -> Sq<T>;
%fn Container::get_iter
@ensures con: r.rem() == self.elems()
%impl Iterator for BoxedIter
open spec fn rem(&self) -> Sq<T> { self.iter.rem() }
%fn BoxedIter::next
@props: C22
%impl trait BoxedIterator
spec fn left(&self) -> Sq<T>;
%fn BoxedIterator::boxed
@ensures con: r.rem() == self.left()
%impl BoxedIterator for I
open spec fn left(&self) -> Sq<T> { self.rem() }
%fn I::boxed
@sem: con=C22
@props: C22
%impl =Container<T> for T
open spec fn elems(&self) -> Sq<T> { seq![*self] }
%impl =Container<char> for String
open spec fn elems(&self) -> Sq<char> { self@ }
%impl =Container<char> for &'t str
open spec fn elems(&self) -> Sq<char> { (*self)@ }
%impl =Container<T> for [T]
open spec fn elems(&self) -> Sq<T> { self@ }
%impl =Container<T> for &'t [T]
open spec fn elems(&self) -> Sq<T> { (*self)@ }
%impl =Container<&'t T> for &'t [T]
open spec fn elems(&self) -> Sq<&'t T> { refs((*self)@) }
%impl =Container<T> for [T; N]
open spec fn elems(&self) -> Sq<T> { self@ }
%impl =Container<T> for &'t [T; N]
open spec fn elems(&self) -> Sq<T> { (*self)@ }
%impl =Container<&'t T> for &'t [T; N]
open spec fn elems(&self) -> Sq<&'t T> { refs((*self)@) }
%impl =Container<T> for Vec<T>
open spec fn elems(&self) -> Sq<T> { self@ }
%impl =Container<T> for &'t Vec<T>
open spec fn elems(&self) -> Sq<T> { (*self)@ }
%impl =Container<&'t T> for &'t Vec<T>
open spec fn elems(&self) -> Sq<&'t T> { refs((*self)@) }
%fn T::get_iter
@sem: con=C22
@props: C22
%fn String::get_iter
@sem: con=C22
@props: C22
%fn &'tstr::get_iter
@sem: con=C22
@props: C22
%fn [T]::get_iter
@sem: con=C22
@props: C22
%fn &'t[T]::get_iter
@sem: con=C22
@props: C22
%fn [T;N]::get_iter
@sem: con=C22
@props: C22
%fn &'t[T;N]::get_iter
@sem: con=C22
@props: C22
%fn Vec::get_iter
@sem: con=C22
@props: C22
%fn &'tVec<T>::get_iter
@sem: con=C22
@props: C22

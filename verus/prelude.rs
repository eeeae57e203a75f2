// Shared definitions: panics as proof obligations, assumed contracts of the standard library.
use vstd::std_specs::cmp::*;

/// `assert!`, `assert_eq!` of the source: the condition is an obligation (a failing one would panic).
pub fn vx_assert(b: bool)
    requires b,
{
}

/// `unreachable!`, `panic!` of the source: must be unreachable.
#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false,
{
    unreachable!()
}

pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { b } else { a });
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { a } else { b });
pub assume_specification<T, A: core::alloc::Allocator> [alloc::vec::Vec::<T, A>::into_boxed_slice] (v: alloc::vec::Vec<T, A>) -> (r: alloc::boxed::Box<[T], A>)
    ensures r@ == v@;

// the tool is verified for 64-bit hosts
global size_of usize == 8;

//@deps bincode
use crate::bincode;
//@file xdvdfs-core/src/util.rs
//@item enum Error

impl<E> From<E> for Error<E> {
//@fn from in impl<E> From<E> for Error<E>
//@ret r
//@end
}

impl<E> vstd::std_specs::convert::FromSpecImpl<E> for Error<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: E) -> Self { Error::IOError(v) }
}

//! The custom conversions and predicates that definitions of the catalogue name.
use oasis_cbor::DecodeError;
use std::convert::TryFrom;

pub fn not(x: &bool) -> bool {
    !*x
}
pub fn un_not(x: bool) -> Result<bool, DecodeError> {
    Ok(!x)
}
pub fn succ<T: Copy + Into<u64>>(x: &T) -> u64 {
    (*x).into() + 1
}
pub fn pred<T: TryFrom<u64>>(x: u64) -> Result<T, DecodeError> {
    let x = x.checked_sub(1).ok_or(DecodeError::UnexpectedIntegerSize)?;
    T::try_from(x).map_err(|_| DecodeError::UnexpectedIntegerSize)
}
pub fn wrap(x: &u64) -> Vec<u64> {
    vec![*x]
}
pub fn unwrap(x: Vec<u64>) -> Result<u64, DecodeError> {
    match x[..] {
        [x] => Ok(x),
        _ => Err(DecodeError::UnexpectedType),
    }
}
pub fn nonzero(x: &u64) -> Option<u64> {
    Some(*x).filter(|x| *x != 0)
}
pub fn or_zero(x: Option<u64>) -> Result<u64, DecodeError> {
    Ok(x.unwrap_or(0))
}
pub fn hide(_: &u64) {}
pub fn odd(x: u64) -> Result<u64, DecodeError> {
    if x % 2 == 1 {
        Ok(x)
    } else {
        Err(DecodeError::MissingField)
    }
}
pub fn is_two(x: &u64) -> bool {
    *x == 2
}
pub fn always<T>(_: &T) -> bool {
    true
}
pub fn never<T>(_: &T) -> bool {
    false
}

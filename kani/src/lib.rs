#![cfg(kani)]
#![allow(static_mut_refs)]
#![recursion_limit = "512"]
// The features `off_*` only exist for the runner: when a contract module no longer compiles
// against /repo (an anchor is gone), the runner leaves it out, reports its obligations as
// undecided, and still decides the others.
#[cfg(not(feature = "off_c_inode"))]
mod c_inode;
#[cfg(not(feature = "off_c_key"))]
mod c_key;
#[cfg(not(any(feature = "off_c_leaf", feature = "off_c_perm")))]
mod c_leaf;
#[cfg(not(feature = "off_c_perm"))]
mod c_perm;
#[cfg(not(any(feature = "off_c_freeze", feature = "off_c_perm")))]
mod c_freeze;
#[cfg(not(feature = "off_c_perm15"))]
mod c_perm15;
#[cfg(not(any(feature = "off_c_version", feature = "off_rg")))]
mod c_version;
#[cfg(not(feature = "off_c_wide"))]
mod c_wide;
#[cfg(not(feature = "off_c_suffix"))]
mod c_suffix;
#[cfg(not(feature = "off_c_value"))]
mod c_value;
#[cfg(not(any(feature = "off_c_alloc", feature = "off_c_value")))]
mod c_alloc;
#[cfg(not(any(feature = "off_c_version", feature = "off_rg")))]
mod rg;
#[cfg(not(feature = "off_ghost"))]
pub mod ghost;
#[cfg(not(feature = "off_ghost"))]
mod seq;
#[cfg(not(feature = "off_ghost"))]
mod seq_split;
#[cfg(not(any(feature = "off_ghost", feature = "off_seq_ins")))]
mod seq_ins;
#[cfg(not(any(feature = "off_ghost", feature = "off_seq_create")))]
mod seq_create;
#[cfg(not(feature = "off_ghost"))]
mod rg_get;
#[cfg(not(feature = "off_ghost"))]
mod seq_walk;

/// A ghost variable.  The magic number keeps its initial bytes different from every
/// constant of the code under verification: Kani merges a constant with a static of the
/// same content, and a later write to the static would change the constant.
#[repr(C)]
pub struct G<T> {
    pub v: T,
    pub magic: u64,
}

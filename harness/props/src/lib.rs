//! Symbolic harnesses: each `entry!` is executed by `/verif/engine` over the LLVM IR of the
//! crates in /repo and, for replay, natively.  Properties are asserted with `check`.
#![allow(clippy::all)]
#[macro_export]
macro_rules! entry {
    ($name:ident, $body:block) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            $body
        }
    };
}
pub mod actions;
pub mod assembler;
pub mod builder;
pub mod cli;
pub mod gen;
pub mod desc;
pub mod describe;
pub mod ids;
pub mod io;
pub mod json;
pub mod selector;
pub mod smithy;
pub mod keywords;
pub mod model;
pub mod query;
pub mod rdf;

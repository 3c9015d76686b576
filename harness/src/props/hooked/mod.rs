//! The properties that need access to internals. Each is compiled for itself, so
//! that it depends on no other access than it needs.

use crate::engine::Prop;

macro_rules! properties {
    ($($id:literal $module:ident :: $f:ident;)*) => {
        pub fn all() -> Vec<Prop> {
            #[allow(unused_mut)]
            let mut v = Vec::new();
            $(
                #[cfg(rescan_check = $id)]
                v.push($module::$f());
            )*
            v
        }
    };
}

#[cfg(rescan_check = "C19")]
mod arithmetic;
#[cfg(rescan_check = "C24")]
mod bookkeeping;
#[cfg(rescan_check = "C09")]
mod caseless;
#[cfg(rescan_check = "C18")]
mod depth;
#[cfg(rescan_check = "C17")]
mod describe;
#[cfg(any(rescan_check = "C10", rescan_check = "C23"))]
#[allow(dead_code)]
mod graphs;
#[cfg(rescan_check = "C16")]
mod literal;
#[cfg(any(rescan_check = "C11", rescan_check = "C12", rescan_check = "C24"))]
#[allow(dead_code)]
mod model;
#[cfg(rescan_check = "C10")]
mod positions;
#[cfg(rescan_check = "C23")]
mod queries;
#[cfg(rescan_check = "C13")]
mod reports;
#[cfg(rescan_check = "C20")]
mod runtime;
#[cfg(any(rescan_check = "C14", rescan_check = "C15", rescan_check = "C17"))]
#[allow(dead_code)]
mod sets;
#[cfg(rescan_check = "C11")]
mod shortcut;
#[cfg(rescan_check = "C12")]
mod small_write;
#[cfg(rescan_check = "C07")]
mod tree;
#[cfg(any(rescan_check = "C07", rescan_check = "C08", rescan_check = "C09"))]
#[allow(dead_code)]
mod trees;
#[cfg(rescan_check = "C08")]
mod verbs;
#[cfg(rescan_check = "C22")]
mod wiring;

properties! {
    "C07" tree::prop;
    "C08" verbs::prop;
    "C09" caseless::prop;
    "C10" positions::prop;
    "C11" shortcut::prop;
    "C12" small_write::prop;
    "C13" reports::prop;
    "C14" sets::operations;
    "C15" sets::predicates;
    "C16" literal::prop;
    "C17" describe::prop;
    "C18" depth::prop;
    "C19" arithmetic::prop;
    "C20" runtime::prop;
    "C22" wiring::prop;
    "C23" queries::prop;
    "C24" bookkeeping::prop;
}

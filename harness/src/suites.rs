#[cfg(not(vp_public))]
pub mod arith;
#[cfg(not(vp_public))]
pub mod class;
pub mod engine;
#[cfg(not(vp_public))]
pub mod graph;
#[cfg(not(vp_public))]
pub mod graphs;
pub mod isolation;
#[cfg(not(vp_public))]
pub mod literal;
#[cfg(not(vp_public))]
pub mod parse;
#[cfg(not(vp_public))]
pub mod regions;
#[cfg(not(vp_public))]
pub mod reports;
pub mod session;
#[cfg(not(vp_public))]
pub mod smallwrite;
pub mod snap;
#[cfg(not(vp_public))]
pub mod store;

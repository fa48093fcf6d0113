#![allow(dead_code, non_snake_case)]
pub mod sta;
#[cfg(feature = "geo")]
pub mod view;
#[cfg(feature = "geo")]
pub mod geo;
#[cfg(feature = "inverse")]
pub mod inverse;
#[cfg(feature = "random")]
pub mod random;
#[cfg(feature = "index")]
pub mod index;
#[cfg(feature = "alg")]
pub mod alg;
#[cfg(feature = "oriented")]
pub mod oriented;
#[cfg(feature = "space")]
pub mod space;
#[cfg(feature = "pieces")]
pub mod pieces;
#[cfg(feature = "cross")]
pub mod cross;
#[cfg(feature = "search")]
pub mod search;
#[cfg(feature = "wide")]
pub mod wide;
pub mod model;
#[cfg(feature = "unfold")]
pub mod unfold;
#[cfg(feature = "text")]
pub mod text;
#[cfg(feature = "cache")]
pub mod cache;
#[cfg(all(feature = "cache", barbarosa_verif))]
pub mod table;
#[cfg(feature = "play")]
pub mod play;
#[cfg(feature = "laws")]
pub mod laws;

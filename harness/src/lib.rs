#[cfg(feature = "full")]
pub mod auth;
pub mod carrier;
pub mod denote;
#[cfg(feature = "models")]
pub mod entities;
#[cfg(feature = "models")]
#[rustfmt::skip]
pub mod entities_gen;
pub mod gen;
pub mod kit;
pub mod minidb;
pub mod models;
#[cfg(feature = "models")]
#[rustfmt::skip]
pub mod models_gen;
pub mod poolkit;
pub mod rng;
pub mod runner;
pub mod script;
pub mod server;
pub mod sqlmini;
pub mod stream;
pub mod synckit;
pub mod timing;
pub mod wire;

pub use {
    rng::Rng,
    runner::{brief, inconclusive, run, violation, Case, CaseResult, Check, Fail, Ran},
    server::{dialer, lock, once, Cmd, Handler, Server, Session},
    stream::{Chunk, Fault, IoPlan, Item, Link, MemOptions, MemStream, PeerIo, Pos},
    wire::{caps, typ, ColSpec, ErrSpec, Greeting, OkSpec, PVal, Param},
};

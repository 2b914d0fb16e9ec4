#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
#[macro_use]
mod engine;
mod audit;
mod gen;
mod ops;
mod sha2;
mod tap;
mod toy;
mod wire;
mod world;

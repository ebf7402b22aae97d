pub mod app;
pub mod gen;
pub mod mock;
pub mod keys;
pub mod wire;

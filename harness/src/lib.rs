pub mod alloc;
pub mod checks;
pub mod clock;
pub mod engine;
pub mod family;
pub mod gen;
pub mod hashers;
pub mod iters;
pub mod keys;
pub mod liars;
pub mod maps;
pub mod sets;
pub mod tokens;

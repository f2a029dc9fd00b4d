//! What the generated programs of macros.py are compiled against.
pub use frozen_collections;

pub mod string {
    /// Not the standard library's.
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct String(pub u64, pub bool);
}

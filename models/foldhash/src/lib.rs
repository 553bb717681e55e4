//! Unit hasher for symbolic builds (the map model beside it never consults the hash).
#![no_std]
pub mod fast {
    use core::hash::{BuildHasher, Hasher};
    #[derive(Clone, Copy, Debug, Default)]
    pub struct RandomState;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct FoldHasher(u64);
    impl Hasher for FoldHasher {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, _b: &[u8]) {}
    }
    impl BuildHasher for RandomState {
        type Hasher = FoldHasher;
        fn build_hasher(&self) -> FoldHasher {
            FoldHasher(0)
        }
    }
    pub type FixedState = RandomState;
}
pub use fast as quality;

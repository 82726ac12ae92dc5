pub use num_traits::{One, Zero};
pub mod fields {
    pub use crate::Field;
}
pub trait Field: Copy + One + Zero + PartialEq {
    fn inverse(&self) -> Option<Self>;
    fn sqrt(&self) -> Option<Self>;
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        let mut r = Self::one();
        for w in e.as_ref().iter().rev() {
            for i in (0..64).rev() {
                r = r.square();
                if w >> i & 1 == 1 {
                    r = r * *self;
                }
            }
        }
        r
    }
}

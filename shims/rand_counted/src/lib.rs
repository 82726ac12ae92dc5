//! `rand` as it is, except that the draws of `thread_rng` can be bounded: a loop which draws until it
//! is satisfied, and never is, ends with a panic instead of running on.
pub use rand::*;
use std::cell::Cell;

thread_local! {
    static LEFT: Cell<Option<u64>> = const { Cell::new(None) };
}
/// From now on this thread may draw `n` more values; `None`: as many as it likes.
pub fn limit_draws(n: Option<u64>) {
    LEFT.with(|l| l.set(n));
}
#[derive(Clone, Debug)]
pub struct Counted(rand::rngs::ThreadRng);
pub fn thread_rng() -> Counted {
    Counted(rand::thread_rng())
}
fn draw() {
    LEFT.with(|l| match l.get() {
        Some(0) => panic!("rand_counted: too many draws"),
        Some(n) => l.set(Some(n - 1)),
        None => {}
    })
}
impl RngCore for Counted {
    fn next_u32(&mut self) -> u32 {
        draw();
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        draw();
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        draw();
        self.0.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        draw();
        self.0.try_fill_bytes(dest)
    }
}
impl CryptoRng for Counted {}

//! Stand-in for chrono: the code only prints times.
pub struct Local;
pub struct Utc;
pub struct DateTime;
impl Local {
    pub fn now() -> DateTime {
        DateTime
    }
}
impl Utc {
    pub fn now() -> DateTime {
        DateTime
    }
}
impl DateTime {
    pub fn format(&self, _f: &str) -> &'static str {
        "00:00:00"
    }
    /// never the same twice
    pub fn timestamp_millis(&self) -> i64 {
        static LAST: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_millis() as i64);
        let now = now * 1_000_000 + std::process::id() as i64 % 1000 * 1000;
        let step = |l| Some(now.max(l + 1));
        LAST.fetch_update(std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst, step).map_or(now, |l| now.max(l + 1))
    }
    pub fn timestamp(&self) -> i64 {
        0
    }
}
impl std::fmt::Display for DateTime {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("0")
    }
}

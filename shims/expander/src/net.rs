//! Type-level stand-ins for axum / reqwest, in-process stand-in for shared_memory.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

// ---- axum
pub mod extract {
    pub struct State<S>(pub S);
}
pub struct Json<T>(pub T);
pub struct Router<S = ()>(std::marker::PhantomData<S>);
pub struct MethodRouter;
pub mod routing {
    pub fn get<H>(_h: H) -> super::MethodRouter {
        super::MethodRouter
    }
    pub fn post<H>(_h: H) -> super::MethodRouter {
        super::MethodRouter
    }
}
impl Router {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Router(std::marker::PhantomData)
    }
    pub fn route(self, _p: &str, _m: MethodRouter) -> Self {
        self
    }
    pub fn with_state<S>(self, _s: S) -> Self {
        self
    }
    pub fn into_make_service(self) -> Self {
        self
    }
}
pub struct Serve;
pub fn serve<L>(_l: L, _s: Router) -> Serve {
    Serve
}
impl Serve {
    pub async fn with_graceful_shutdown<F: std::future::Future<Output = ()>>(self, _f: F) -> Result<(), String> {
        Err("no HTTP server in the stand-in".into())
    }
}

// ---- reqwest
/// Who answers the requests of this process; without one there is no network.
pub trait Http: Send + Sync {
    fn body(&self, b: &dyn std::any::Any) -> String;
    /// Ok(whether it succeeded)
    fn call(&self, method: &'static str, url: &str, body: Option<String>) -> Result<bool, String>;
}
static HTTP: Mutex<Option<Arc<dyn Http>>> = Mutex::new(None);
pub fn answer_http(h: Option<Arc<dyn Http>>) {
    *HTTP.lock().unwrap_or_else(|e| e.into_inner()) = h;
}
fn http() -> Option<Arc<dyn Http>> {
    HTTP.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
#[derive(Default)]
pub struct Client;
pub struct RequestBuilder {
    method: &'static str,
    url: String,
    body: Option<String>,
}
pub struct Response(bool);
#[derive(Debug)]
pub struct StatusCode(bool);
impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if self.0 { "200 OK" } else { "500 Internal Server Error" })
    }
}
impl StatusCode {
    pub fn is_success(&self) -> bool {
        self.0
    }
}
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.0)
    }
}
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn post(&self, url: String) -> RequestBuilder {
        RequestBuilder { method: "POST", url, body: None }
    }
    pub fn get(&self, url: String) -> RequestBuilder {
        RequestBuilder { method: "GET", url, body: None }
    }
}
impl RequestBuilder {
    pub fn json<T: 'static>(self, t: &T) -> Self {
        RequestBuilder { body: http().map(|h| h.body(t)), ..self }
    }
    pub async fn send(self) -> Result<Response, String> {
        let Some(h) = http() else { return Err("no HTTP client in the stand-in".into()) };
        h.call(self.method, &self.url, self.body).map(Response)
    }
}

// ---- shared_memory
struct Region {
    ptr: usize,
    len: usize,
    cap: usize,
}
/// Words behind every region that nobody may write to.
const GUARD: usize = 1 << 13;
impl Region {
    fn intact(&self) {
        let end = self.len.div_ceil(8);
        let g = unsafe { std::slice::from_raw_parts((self.ptr as *const u64).add(end), GUARD) };
        let tail = unsafe { std::slice::from_raw_parts((self.ptr + self.len) as *const u8, end * 8 - self.len) };
        assert!(tail.iter().all(|x| *x == 0) && g.iter().all(|x| *x == 0), "shared memory stand-in: written beyond its end");
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        unsafe { drop(Vec::<u64>::from_raw_parts(self.ptr as *mut u64, 0, self.cap)) }
    }
}
static SHM: Mutex<Option<HashMap<String, Arc<Region>>>> = Mutex::new(None);
pub struct Shmem {
    r: Arc<Region>,
    owner: Option<String>,
}
#[derive(Default)]
pub struct ShmemConf {
    size: usize,
    name: String,
}
#[derive(Debug)]
pub struct ShmemError(pub String);
impl ShmemConf {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn size(mut self, n: usize) -> Self {
        self.size = n;
        self
    }
    pub fn flink(mut self, n: &str) -> Self {
        self.name = n.to_string();
        self
    }
    pub fn force_create_flink(self) -> Self {
        self
    }
    pub fn create(self) -> Result<Shmem, ShmemError> {
        if self.size == 0 {
            return Err(ShmemError("MapSizeZero".into()));
        }
        let len = self.size;
        let mut v = vec![0u64; len.div_ceil(8) + GUARD];
        let r = Arc::new(Region { ptr: v.as_mut_ptr() as usize, len, cap: v.capacity() });
        std::mem::forget(v);
        SHM.lock().unwrap().get_or_insert_with(HashMap::new).insert(self.name.clone(), r.clone());
        Ok(Shmem { r, owner: Some(self.name) })
    }
    pub fn open(self) -> Result<Shmem, ShmemError> {
        let r = SHM.lock().unwrap().as_ref().and_then(|m| m.get(&self.name).cloned());
        match r {
            Some(r) => {
                r.intact();
                Ok(Shmem { r, owner: None })
            }
            None => Err(ShmemError(format!("no shared memory {}", self.name))),
        }
    }
}
impl Shmem {
    pub fn as_ptr(&self) -> *mut u8 {
        self.r.ptr as *mut u8
    }
    pub fn len(&self) -> usize {
        self.r.len
    }
    pub fn is_empty(&self) -> bool {
        self.r.len == 0
    }
}
impl Drop for Shmem {
    fn drop(&mut self) {
        if let Some(n) = &self.owner {
            let mut m = SHM.lock().unwrap();
            if let Some(m) = m.as_mut() {
                if m.get(n).is_some_and(|r| Arc::ptr_eq(r, &self.r)) {
                    m.remove(n);
                }
            }
        }
    }
}

//! The Go half runs in a child process of each worker.
use pbt::json::{parse, J};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Srv {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    pub dir: PathBuf,
    pub ids: Vec<u64>,
}
thread_local! {
    static SRV: RefCell<Option<Srv>> = const { RefCell::new(None) };
}
fn root() -> PathBuf {
    // h_go lies in target/debug
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().parent().unwrap().to_path_buf()
}
impl Srv {
    fn start() -> Srv {
        let target = root();
        let dir = std::env::temp_dir().join(format!("h_go.{}.{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
        let cache = dir.join(".cache/ExpanderCompilerCollection");
        std::fs::create_dir_all(&cache).unwrap();
        std::os::unix::fs::symlink(target.join("debug/libec_go_lib.so"), cache.join("libec_go_lib.so")).unwrap();
        let mut c = Command::new(target.join("h_go_server"));
        c.current_dir(&dir).env("HOME", &dir).env("HTTPS_PROXY", "http://127.0.0.1:9").env("https_proxy", "http://127.0.0.1:9").env("GOMAXPROCS", "2").env("GOTRACEBACK", "none");
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().unwrap_or_else(|e| undecided(&format!("the Go half does not start: {e}")));
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        let mut s = Srv { child, stdin, stdout, dir, ids: vec![] };
        match s.ask("{\"cmd\":\"hello\"}") {
            Ok(r) => s.ids = r.get("ids").unwrap().nums(),
            Err(e) => undecided(&format!("the Go half does not answer: {e}")),
        }
        s
    }
    fn ask(&mut self, q: &str) -> Result<J, String> {
        let mut line = String::new();
        let sent = self.stdin.write_all(q.as_bytes()).and_then(|_| self.stdin.write_all(b"\n")).and_then(|_| self.stdin.flush());
        if sent.is_ok() && self.stdout.read_line(&mut line).is_ok() && line.ends_with('\n') {
            return Ok(parse(&line).unwrap_or_else(|| panic!("answer of the Go half: {}", &line[..line.len().min(3000)])));
        }
        let st = self.child.wait().unwrap();
        if st.signal() == Some(libc::SIGKILL) {
            undecided("the Go half was killed");
        }
        Err(format!("the Go process died: {st}"))
    }
}
impl Drop for Srv {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn undecided(why: &str) -> ! {
    eprintln!("# {why}: undecided");
    std::process::exit(2)
}
/// One request. A process that dies of it is the fault of the code under test (the library aborts
/// where a panic reaches its C interface).
pub fn ask(q: &str) -> Result<J, String> {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        let r = s.get_or_insert_with(Srv::start).ask(q);
        if r.is_err() {
            *s = None;
        }
        r
    })
}
pub fn with<T>(f: impl FnOnce(&Srv) -> T) -> T {
    SRV.with(|s| f(s.borrow_mut().get_or_insert_with(Srv::start)))
}
pub fn stop() {
    SRV.with(|s| *s.borrow_mut() = None);
}
pub fn s<'a>(j: &'a J, k: &str) -> &'a str {
    j.get(k).and_then(|x| x.str()).unwrap_or("")
}
pub fn arr<'a>(j: &'a J, k: &str) -> &'a [J] {
    match j.get(k) {
        Some(J::Arr(v)) => v,
        _ => &[],
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

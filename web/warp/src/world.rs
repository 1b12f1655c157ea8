//! Clock, files, sockets and tasks of a scenario.
use crate::sym;
use crate::ws::{Kind, Message};
use crate::{body_of_hyper::Body, Error, Out, Request};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake};

// ------------------------------------------------------------ the clock stands still except for jumps at arbitrary reads
static mut NOW: u64 = 1_000_000; // milliseconds
static mut AT: [u64; 3] = [u64::MAX; 3];
static mut BY: [u64; 3] = [0; 3];
static mut DONE: usize = 0;
static mut READS: u64 = 0;
#[repr(C)]
pub struct Ts { sec: u64, nsec: u64 }
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut Ts) -> i32 {
    READS += 1;
    if DONE < 3 && READS == AT[DONE] { NOW += BY[DONE]; DONE += 1 }
    (*ts).sec = NOW / 1000;
    (*ts).nsec = NOW % 1000 * 1_000_000;
    0
}
/// `n` jumps (0 to 3) of 60 ms, 11 s or 1000 s, each at an arbitrary read up to `span` after the one before.
pub fn clock(n: u64, span: u8) {
    let mut at = [u64::MAX; 3]; let mut by = [0; 3]; let mut t = 0;
    for i in 0..n as usize { t += sym::range(1, span) as u64; at[i] = t; by[i] = [60, 11_000, 1_000_000][sym::choose(3) as usize] }
    unsafe { NOW = 1_000_000; READS = 0; DONE = 0; AT = at; BY = by }
}
pub fn clock_stop() { unsafe { AT = [u64::MAX; 3] } }
/// How far the clock has jumped, in milliseconds.
pub fn elapsed() -> u64 { unsafe { NOW - 1_000_000 } }

// ------------------------------------------------------------ the wordlists
pub const LISTS: [(&str, &str); 2] = [
    ("default", "9\tab\n8\tabc\n7\tba\n6\ta\n5\tcab\n4\tAb-c\n3\t\u{e9}ab\n2\tb\n1\tbb\n0\tI\n3\tq\"u\n"),
    ("other", "ba\nbab\nca\nx1\n"),
];
pub const EXTRA: &str = "notes"; // a directory among the files
#[cfg(not(feature = "native"))]
mod file {
    use super::*;
    static mut DIR: usize = 0;
    static mut FILE: usize = 0;
    static mut POS: usize = 0;
    #[repr(C)]
    pub struct Entry { ino: u64, off: i64, reclen: u16, kind: u8, name: [u8; 256] }
    static mut ENTRY: Entry = Entry { ino: 1, off: 0, reclen: 280, kind: 8, name: [0; 256] };
    #[no_mangle] pub unsafe extern "C" fn opendir(_: *const u8) -> usize { DIR = 0; 0x1234 }
    #[no_mangle] pub unsafe extern "C" fn closedir(_: usize) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn dirfd(_: usize) -> i32 { 9 }
    #[no_mangle] pub unsafe extern "C" fn readdir64(_: usize) -> *const Entry {
        let e = &mut *std::ptr::addr_of_mut!(ENTRY);
        e.name = [0; 256];
        let name = match DIR { 0 => "default.txt", 1 => EXTRA, 2 => "other.txt", _ => return std::ptr::null() };
        e.kind = if DIR == 1 { 4 } else { 8 };
        e.name[..name.len()].copy_from_slice(name.as_bytes());
        DIR += 1;
        e
    }
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const u8, _: i32, _: i32) -> i32 {
        let mut n = 0; let mut other = false;
        while *p.add(n) != 0 { other |= *p.add(n) == b'o' && *p.add(n + 1) == b't' && *p.add(n + 2) == b'h'; n += 1 }
        FILE = other as usize; POS = 0; 7
    }
    #[no_mangle] pub unsafe extern "C" fn read(fd: i32, to: *mut u8, n: usize) -> isize {
        if fd != 7 { return -1 }
        let c = LISTS[FILE].1.as_bytes();
        let k = n.min(c.len() - POS);
        std::ptr::copy_nonoverlapping(c.as_ptr().add(POS), to, k);
        POS += k; k as isize
    }
    #[no_mangle] pub unsafe extern "C" fn close(_: i32) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn fcntl(_: i32, _: i32, _: i32) -> i32 { 0 }
}
/// The folder the programs read their wordlists from.
pub fn folder() -> String {
    #[cfg(not(feature = "native"))]
    { "/lists".into() }
    #[cfg(feature = "native")]
    { std::env::args().nth(1).unwrap_or_default() }
}
pub fn list(name: &str) -> Vec<noodle::Word> { noodle::load_wordlist(format!("{}/{}.txt", folder(), name)).unwrap_or_default() }

// ------------------------------------------------------------ what is written to standard output
pub static mut CAPTURE: Option<Vec<u8>> = None;
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if fd == 1 {
        if let Some(c) = &mut *std::ptr::addr_of_mut!(CAPTURE) { for i in 0..n { c.push(*p.add(i)) } return n as isize }
    }
    #[cfg(feature = "native")]
    { extern "C" { fn syscall(n: i64, ...) -> i64; } return syscall(1, fd as i64, p, n) as isize }
    #[cfg(not(feature = "native"))]
    { n as isize }
}

// ------------------------------------------------------------ websockets
#[derive(Clone)]
pub enum First { Text(Vec<u8>), Binary, Error, Nothing }
pub struct Session {
    pub first: First, pub delay: bool, pub taken: bool, pub polls: u64,
    pub close_at: u64, pub extra_at: u64, pub fail_at: u64, pub ready_at: u64, pub flush_at: u64,
    pub close_seen: Option<usize>, pub failed: bool,
    pub sent: Vec<String>, pub closed: u32, pub dropped: bool, pub after_close: bool,
    pub done: bool,
}
impl Session {
    pub fn new(first: First) -> Session {
        let n = u64::MAX;
        Session { first, delay: false, taken: false, polls: 0, close_at: n, extra_at: n, fail_at: n, ready_at: n, flush_at: n, close_seen: None, failed: false, sent: vec![], closed: 0, dropped: false, after_close: false, done: false }
    }
    pub fn receive(&mut self) -> Poll<Option<Result<Message, Error>>> {
        if self.delay { self.delay = false; return Poll::Pending }
        if !self.taken {
            if let First::Nothing = self.first { return Poll::Ready(None) }
            self.taken = true;
            return Poll::Ready(Some(match &self.first {
                First::Text(s) => Ok(Message(Kind::Text(unsafe { String::from_utf8_unchecked(s.clone()) }))),
                First::Binary => Ok(Message(Kind::Binary(vec![97]))),
                _ => Err(Error("connection reset")),
            }))
        }
        self.polls += 1;
        if self.polls >= self.close_at { if self.close_seen.is_none() { self.close_seen = Some(self.sent.len()) } return Poll::Ready(None) }
        if self.polls == self.extra_at { return Poll::Ready(Some(Ok(Message::text("b")))) }
        Poll::Pending
    }
    pub fn ready(&mut self) -> Poll<Result<(), Error>> {
        let n = self.sent.len() as u64;
        if n >= self.fail_at { self.failed = true; return Poll::Ready(Err(Error("broken pipe"))) }
        if n == self.ready_at { self.ready_at = u64::MAX; return Poll::Pending }
        Poll::Ready(Ok(()))
    }
    pub fn send(&mut self, m: Message) -> Result<(), Error> {
        if self.closed > 0 { self.after_close = true }
        self.sent.push(m.to_str().unwrap_or("?").to_string());
        Ok(())
    }
    pub fn flush(&mut self) -> Poll<Result<(), Error>> {
        if self.sent.len() as u64 == self.flush_at { self.flush_at = u64::MAX; return Poll::Pending }
        Poll::Ready(Ok(()))
    }
    pub fn close(&mut self) { self.closed += 1 }
}

// ------------------------------------------------------------ the server and its tasks
type Routes = Rc<dyn Fn(Request) -> Option<Out>>;
thread_local!(static ROUTES: RefCell<Option<Routes>> = RefCell::new(None));
pub fn install(r: Routes) { ROUTES.with(|x| *x.borrow_mut() = Some(r)) }
pub fn request(r: Request) -> Option<Out> { let f = ROUTES.with(|x| x.borrow().clone()).unwrap(); f(r) }
pub fn get(path: &[&str]) -> Request { Request { path: path.iter().map(|s| s.to_string()).collect(), ..Default::default() } }
struct Nothing;
impl Wake for Nothing { fn wake(self: Arc<Self>) {} }
pub fn poll(f: &mut Pin<Box<dyn Future<Output = ()>>>) -> bool {
    let w = Arc::new(Nothing).into();
    f.as_mut().poll(&mut Context::from_waker(&w)).is_ready()
}
pub fn bytes_of(b: Body) -> Vec<u8> {
    match b {
        Body::Full(v) => v,
        Body::Chunks(mut s) => {
            let mut r = vec![];
            let w = Arc::new(Nothing).into();
            loop { match s.as_mut().poll_next(&mut Context::from_waker(&w)) { Poll::Ready(Some(Some(x))) => r.extend_from_slice(&x), Poll::Ready(None) => return r, _ => sym::fail(2001) } }
        }
    }
}
pub fn text_of(o: Option<Out>) -> String { match o { Some(Out::Text(200, v)) => String::from_utf8(v).unwrap_or_else(|_| sym::fail(2002)), _ => sym::fail(2003) } }

pub type Setup = fn() -> Pin<Box<dyn Future<Output = ()>>>;
static mut SETUP: Option<Setup> = None;
pub fn scenario(setup: Setup, scn: u64, a: u64, b: u64, c: u64, d: u64) {
    clock(0, 0);
    let mut f = setup();
    if !poll(&mut f) { sym::fail(2004) }
    match scn {
        200 => crate::scenarios::websocket(a, b, c, d),
        201 => crate::scenarios::http(a, b, c, d),
        202 => crate::scenarios::wordlists(a, b, c, d),
        204 => crate::scenarios::large(a, b, c, d),
        _ => sym::fail(9999),
    }
}
pub fn start(setup: Setup) {
    unsafe { SETUP = Some(setup) }
    driver::enter();
}
fn run(scn: u64, a: u64, b: u64, c: u64, d: u64) { scenario(unsafe { SETUP.unwrap() }, scn, a, b, c, d) }
#[cfg(feature = "native")]
pub mod driver {
    use super::*;
    mod lines { use super::run; use crate::sym; include!("../../../harness/src/driver.rs"); pub fn go() { main() } }
    /// Makes the folder with the wordlists, then runs itself with it.
    pub fn with_folder(f: impl FnOnce()) {
        if std::env::args().len() > 1 { return f() }
        let d = std::env::temp_dir().join(format!("noodle-lists-{}", std::process::id()));
        std::fs::create_dir_all(d.join(EXTRA)).unwrap();
        for (n, t) in LISTS { std::fs::write(d.join(format!("{}.txt", n)), t).unwrap() }
        let r = std::process::Command::new(std::env::current_exe().unwrap()).arg(&d).status();
        let _ = std::fs::remove_dir_all(&d);
        std::process::exit(r.ok().and_then(|s| s.code()).unwrap_or(1));
    }
    pub fn enter() { with_folder(lines::go) }
}
#[cfg(not(feature = "native"))]
pub mod driver { pub fn enter() { super::run(0, 0, 0, 0, 0) } }

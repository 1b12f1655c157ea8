//! Stands in for structopt: the command line comes from the scenario.
pub use structopt_derive::StructOpt;
pub trait StructOpt: Sized { fn from_args() -> Self; }
pub mod world {
    use noodle::{parser::QueryAst, QueryEvaluator, QueryResponse};
    use warp::sym;
    use warp::world::*;
    static mut RUNNING: bool = false;
    static mut COUNT: Option<usize> = None;
    static mut DEPTH: usize = 0;
    static mut QUERY: Vec<u8> = Vec::new();
    pub trait Value { fn value() -> Self; }
    impl Value for std::path::PathBuf { fn value() -> Self { format!("{}/default.txt", folder()).into() } }
    impl Value for Option<usize> { fn value() -> Self { unsafe { COUNT } } }
    impl Value for usize { fn value() -> Self { unsafe { DEPTH } } }
    impl Value for String { fn value() -> Self { unsafe { String::from_utf8_unchecked((*std::ptr::addr_of!(QUERY)).clone()) } } }

    const QUERIES: &[&str] = &[".*$.*", "<ab$>", "a.*;$.*", "#words 1;.*", "...$", "#words 3;$*"];
    /// `a`: number of the query; any count up to `b` or none, any phrase length up to `c`.
    pub fn scenario(main: fn(), scn: u64, a: u64, b: u64, c: u64, _: u64) {
        if scn != 203 { sym::fail(9999) }
        let l = sym::range(b'a', b'c');
        let q: Vec<u8> = QUERIES[a as usize].bytes().map(|x| if x == b'$' { l } else { x }).collect();
        let n = sym::choose(b as u8 + 2) as usize;
        unsafe { COUNT = n.checked_sub(1); DEPTH = sym::choose(c as u8 + 1) as usize; QUERY = q.clone(); RUNNING = true }
        sym::note(|| format!("query {:?} count {:?} length {}", String::from_utf8_lossy(&q), unsafe { COUNT }, unsafe { DEPTH }));
        let words = list("default");
        let ast = match QueryAst::new_from_str(std::str::from_utf8(&q).unwrap()) { Ok(x) => x, Err(_) => sym::fail(2050) };
        let mut e = QueryEvaluator::from_ast(&ast, &words);
        e.set_results_limit(unsafe { COUNT });
        e.set_search_depth_limit(unsafe { DEPTH });
        let mut want = vec![];
        while let Some(r) = e.next() { if let QueryResponse::Match(p) = r { want.push(p.iter().map(|w| &w.text[..]).collect::<Vec<_>>().join(" ")) } }
        unsafe { CAPTURE = Some(vec![]) }
        main();
        let out = unsafe { (*std::ptr::addr_of_mut!(CAPTURE)).take().unwrap() };
        let out = String::from_utf8(out).unwrap();
        sym::note(|| format!("printed {:?}", out));
        let got: Vec<&str> = out.lines().filter(|x| !x.starts_with("Loaded ") && !x.starts_with("warning")).collect();
        sym::observe(got.len() as u64);
        sym::cover(if want.is_empty() { 2 } else { 1 });
        if got.len() != want.len() { sym::fail(2051) }
        for (x, y) in got.iter().zip(&want) { if x != y { sym::fail(2052) } }
    }
    #[cfg(feature = "native")]
    static mut MAIN: Option<fn()> = None;
    #[cfg(feature = "native")]
    mod lines {
        use warp::sym;
        fn run(scn: u64, a: u64, b: u64, c: u64, d: u64) { super::scenario(unsafe { super::MAIN.unwrap() }, scn, a, b, c, d) }
        include!("../../../harness/src/driver.rs");
        pub fn go() { main() }
    }
    #[cfg(feature = "native")]
    pub fn enter(main: fn()) {
        if unsafe { RUNNING } { return }
        unsafe { MAIN = Some(main) }
        driver::with_folder(|| { lines::go(); std::process::exit(0) })
    }
    #[cfg(not(feature = "native"))]
    pub fn enter(_: fn()) {}
}

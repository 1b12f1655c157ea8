// The two ways to run the scenarios (included by main.rs and bits_main.rs).
#[cfg(not(feature = "native"))]
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    sym_main(a[0], a[1], a[2], a[3], a[4]);
}
/// Replays recorded inputs against the real code. Reads lines
/// `scenario a b c d | value value ...`, writes one JSON line for each.
#[cfg(feature = "native")]
fn main() {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        LAST.with(|l| *l.borrow_mut() = format!("{} ({})", msg, loc));
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split('|');
        let a: Vec<u64> = it.next().unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
        let vals: Vec<u64> = it.next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect();
        sym::R.with(|r| *r.borrow_mut() = sym::Replay { vals, ..Default::default() });
        // the default stack of a thread, as a server would run the search on
        let r = std::panic::catch_unwind(|| run(a[0], a[1], a[2], a[3], a[4]));
        let (kind, id, msg) = match r {
            Ok(()) => ("ok", 0, String::new()),
            Err(e) => {
                if let Some(f) = e.downcast_ref::<sym::Failed>() { ("fail", f.0, String::new()) }
                else if e.downcast_ref::<sym::Assumed>().is_some() { ("assumed", 0, String::new()) }
                else { ("panic", 0, LAST.with(|l| l.borrow().clone())) }
            }
        };
        let (obs, covers, notes) = sym::R.with(|r| { let r = r.borrow(); (r.obs.clone(), r.covers.clone(), r.notes.clone()) });
        let js = |v: &Vec<String>| v.join(",");
        let esc = |s: &str| s.chars().map(|c| match c { '"' => "\\\"".to_string(), '\\' => "\\\\".to_string(), c if (c as u32) < 32 || (c as u32) > 126 => { let mut b = [0u16; 2]; c.encode_utf16(&mut b).iter().map(|x| format!("\\u{:04x}", x)).collect() } c => c.to_string() }).collect::<String>();
        println!("\n@@R {{\"kind\":\"{}\",\"id\":{},\"msg\":\"{}\",\"obs\":[{}],\"covers\":[{}],\"notes\":[{}]}}", kind, id, esc(&msg),
            js(&obs.iter().map(|x| x.to_string()).collect()), js(&covers.iter().map(|x| x.to_string()).collect()), js(&notes.iter().map(|x| format!("\"{}\"", esc(x))).collect()));
        std::io::stdout().flush().unwrap();
    }
}
#[cfg(feature = "native")]
thread_local!(static LAST: std::cell::RefCell<String> = Default::default());

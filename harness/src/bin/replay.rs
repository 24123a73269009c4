//! `replay ENTRY HEX`: one recorded input of an entry against the real engine and the real interpreter.
use harness::sym::replay;
fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    // the command line tool is replayed in a process with its command line
    if let Ok(r) = std::env::var("VERIF_REPLAY") { a = std::iter::once(String::new()).chain(r.split(' ').map(String::from)).collect(); }
    let v: Vec<u8> = (0..a[2].len() / 2).map(|i| u8::from_str_radix(&a[2][2 * i..2 * i + 2], 16).unwrap()).collect();
    let Some(f) = harness::entry(&a[1]) else { println!("UNKNOWN {}", a[1]); std::process::exit(3) };
    replay::load(v);
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |i| { if let Some(l) = i.location() { *l2.lock().unwrap() = format!("{}:{}", l.file(), l.line()); } }));
    let r = std::panic::catch_unwind(f);
    harness::disk::stdout();
    let notes = replay::NOTES.with(|n| n.borrow().clone());
    for n in notes { println!("NOTE {}", n.iter().map(|b| format!("{b:02x}")).collect::<String>()); }
    match r {
        Ok(()) => println!("OK"),
        Err(e) if e.downcast_ref::<replay::AssumeFailed>().is_some() => println!("ASSUME"),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("PANIC {} @ {}", m.replace('\n', " "), loc.lock().unwrap());
        }
    }
    harness::native::cleanup();
}

//! Panics, hangs: every call of the code under test goes through `call`.
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

thread_local! {
    static SLOT: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
static SLOTS: Mutex<Vec<Arc<AtomicU64>>> = Mutex::new(Vec::new());

pub fn init() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if INSIDE.with(|x| x.get()) {
            LAST.with(|l| *l.borrow_mut() = i.to_string());
        } else {
            old(i);
        }
    }));
}

/// Even: idle. Odd: inside a call.
fn tick() {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        let a = s.get_or_insert_with(|| {
            let a = Arc::new(AtomicU64::new(0));
            SLOTS.lock().unwrap().push(a.clone());
            a
        });
        a.fetch_add(1, Ordering::Relaxed);
    });
}

pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    tick();
    INSIDE.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.with(|x| x.set(false));
    tick();
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn watchdog(prop: &'static str, tier: &str) {
    let tier = tier.to_string();
    std::thread::spawn(move || {
        let mut prev: Vec<(u64, u32)> = Vec::new();
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let cur: Vec<u64> = SLOTS.lock().unwrap().iter().map(|a| a.load(Ordering::Relaxed)).collect();
            prev.resize(cur.len(), (0, 0));
            for (p, c) in prev.iter_mut().zip(cur) {
                if p.0 == c && c % 2 == 1 {
                    p.1 += 1;
                } else {
                    *p = (c, 0);
                }
                if p.1 >= 18 {
                    let f = crate::explore::verif_dir().join("replays").join(format!("{prop}-{tier}-hang.txt"));
                    let _ = std::fs::write(&f, format!("property: {prop}\nsignature: hang\nwhat: a codec call does not return (90 s)\n"));
                    println!("VIOLATION property={prop} replay={}", f.display());
                    std::process::exit(1);
                }
            }
        }
    });
}

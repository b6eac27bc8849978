// One write per line: the output of several streams may end up in one place.
macro_rules! println {
    ($($t:tt)*) => {{
        use std::io::Write;
        let s = format!($($t)*) + "\n";
        let mut o = std::io::stdout().lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.flush();
    }};
}
#[allow(unused_macros)]
macro_rules! eprintln {
    ($($t:tt)*) => {{
        use std::io::Write;
        let s = format!($($t)*) + "\n";
        let _ = std::io::stderr().lock().write_all(s.as_bytes());
    }};
}
mod base;
mod explore;
mod mons;
mod mons2;
mod net;
mod props;
mod sn;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    base::silence_panics();
    let usage = "usage: mc <property> <quick|thorough> | mc replay <file>";
    let (prop, tier, only, replay) = match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| {
                s.lines()
                    .find_map(|l| l.strip_prefix(k))
                    .map(|x| x.trim().to_string())
                    .unwrap_or_default()
            };
            let tier = if a[2].contains("-thorough-") {
                "thorough"
            } else {
                "quick"
            };
            (
                get("property:"),
                tier.to_string(),
                Some(get("scope:")),
                Some((
                    get("init:").parse().unwrap_or(0),
                    explore::parse_lbls(&get("labels:")),
                )),
            )
        }
        Some(p) => (
            p.to_string(),
            a.get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or("quick".into()),
            a.get(3).cloned(),
            None,
        ),
        None => panic!("{usage}"),
    };
    let mut r = explore::Report::new(&prop, &tier);
    r.only = only;
    r.replay = replay;
    if cfg!(not(foca_verif)) {
        r.assumptions.push("the hooked build was unavailable: states forked by replaying call logs, no deduplication, reduced scopes".into());
    }
    {
        let (prop, tier, dir) = (prop.clone(), tier.clone(), explore::verif_dir());
        base::watchdog(90, move |call| {
            let p = dir.join("replays").join(format!("{prop}-{tier}-hang.txt"));
            let _ = std::fs::create_dir_all(dir.join("replays"));
            let _ = std::fs::write(
                &p,
                format!("property: {prop}\nsignature: hang\nwhat: this call does not return (90 s)\n{call}\n"),
            );
            println!("VIOLATION property={} replay={}", prop, p.display());
            println!("  hang: a call does not return: {call}");
            std::process::exit(1);
        });
    }
    // A panic of the harness itself (outside the guarded calls) must not look like a verdict.
    let rr = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        props::dispatch(&prop, &mut r);
    }));
    if rr.is_err() {
        eprintln!("harness error: {}", base::last_panic());
        std::process::exit(3);
    }
    if r.replay.is_some() {
        return;
    }
    std::process::exit(r.finish());
}

//! C20: the bundled codecs round-trip exactly and fail cleanly.
// One write per line: the output of several streams may end up in one place.
macro_rules! println {
    ($($t:tt)*) => {{
        use std::io::Write;
        let s = format!($($t)*) + "\n";
        let mut o = std::io::stdout().lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.flush();
    }};
}
#[allow(unused_macros)]
macro_rules! eprintln {
    ($($t:tt)*) => {{
        use std::io::Write;
        let s = format!($($t)*) + "\n";
        let _ = std::io::stderr().lock().write_all(s.as_bytes());
    }};
}
#[path = "../../mc/src/explore.rs"]
#[allow(dead_code)]
mod explore;
mod guard;
mod ids;
mod values;
mod wire;

use bincode::config;
use explore::*;
use foca::{BincodeCodec, PostcardCodec};
use ids::*;

/// A codec together with what its configuration implies.
#[derive(Clone, Copy)]
pub struct Sel<C> {
    pub name: &'static str,
    pub codec: C,
    /// bincode without a limit: allocates what a length prefix says before reading
    pub nolimit: bool,
    pub fixed: bool,
}

fn both<T: Id, C>(r: &mut Report, s: Sel<C>)
where
    C: foca::Codec<T> + Copy + Send + Sync + 'static,
    C::Error: std::error::Error + Send,
{
    values::run::<T, C>(r, s);
    wire::run::<T, C>(r, s);
}

fn plain<T: Id>(r: &mut Report) {
    both::<T, _>(r, Sel { name: "postcard", codec: PostcardCodec, nolimit: false, fixed: false });
    both::<T, _>(r, Sel { name: "bincode-standard", codec: BincodeCodec(config::standard()), nolimit: true, fixed: false });
    both::<T, _>(r, Sel { name: "bincode-standard-be-limit", codec: BincodeCodec(config::standard().with_big_endian().with_limit::<300000>()), nolimit: false, fixed: false });
    both::<T, _>(r, Sel { name: "bincode-legacy", codec: BincodeCodec(config::legacy()), nolimit: true, fixed: true });
    both::<T, _>(r, Sel { name: "bincode-legacy-limit", codec: BincodeCodec(config::legacy().with_limit::<300000>()), nolimit: false, fixed: true });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    guard::init();
    let (tier, only) = match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            println!("{s}");
            return;
        }
        Some("C20") => (
            a.get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or("quick".into()),
            a.get(3).cloned(),
        ),
        _ => panic!("usage: codecmc C20 <quick|thorough> [type]"),
    };
    let mut r = Report::new("C20", &tier);
    guard::watchdog("C20", &tier);
    r.rule = "every evaluation is a call of the real codec (or of a real instance using it); values are compared for equality, cursors and buffers inspected after each call".into();
    let want = |n: &str| only.as_deref().is_none_or(|o| o == n);
    if want("small") {
        plain::<Small>(&mut r);
    }
    if want("socket") {
        plain::<Sock>(&mut r);
    }
    if want("wide") {
        plain::<Wide>(&mut r);
    }
    if want("name") {
        plain::<Name>(&mut r);
    }
    if want("rich") {
        plain::<Rich>(&mut r);
    }
    if want("name") {
        values::known_overflow(&mut r);
    }
    std::process::exit(r.finish());
}

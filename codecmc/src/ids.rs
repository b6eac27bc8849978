//! Identity types of different shapes, and boundary contents for each.
use foca::Identity;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub trait Id:
    Identity + Serialize + DeserializeOwned + std::hash::Hash + Send + Sync + 'static
{
    const NAME: &'static str;
    /// owns byte buffers whose length comes from the wire
    const HEAP: bool;
    /// boundary contents
    fn menu() -> Vec<Self>;
    /// a denser set
    fn all() -> Vec<Self> {
        Self::menu()
    }
    /// nine distinct identities with distinct addresses, of varied encoded sizes
    fn cluster() -> Vec<Self>;
}

macro_rules! identity {
    ($t:ty, $a:ty, |$s:ident| $addr:expr) => {
        impl Identity for $t {
            type Addr = $a;
            fn renew(&self) -> Option<Self> {
                None
            }
            fn addr(&self) -> $a {
                let $s = self;
                $addr
            }
            fn win_addr_conflict(&self, _adversary: &Self) -> bool {
                true
            }
        }
    };
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Small {
    pub addr: u8,
    pub bump: u8,
}
identity!(Small, u8, |s| s.addr);
impl Id for Small {
    const NAME: &'static str = "small";
    const HEAP: bool = false;
    fn menu() -> Vec<Self> {
        let mut v = Vec::new();
        for addr in [0, 1, 127, 128, 250, 251, 252, 255] {
            for bump in [0, 255] {
                v.push(Small { addr, bump });
            }
        }
        v
    }
    fn all() -> Vec<Self> {
        (0..=u16::MAX)
            .map(|x| Small {
                addr: (x >> 8) as u8,
                bump: x as u8,
            })
            .collect()
    }
    fn cluster() -> Vec<Self> {
        (0..9).map(|i| Small { addr: i * 31, bump: i }).collect()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Sock {
    pub addr: SocketAddr,
    pub bump: u16,
}
identity!(Sock, SocketAddr, |s| s.addr);
impl Id for Sock {
    const NAME: &'static str = "socket";
    const HEAP: bool = false;
    fn menu() -> Vec<Self> {
        let ips: [IpAddr; 5] = [
            Ipv4Addr::UNSPECIFIED.into(),
            Ipv4Addr::new(127, 128, 250, 251).into(),
            Ipv4Addr::BROADCAST.into(),
            Ipv6Addr::UNSPECIFIED.into(),
            Ipv6Addr::new(0xffff, 1, 250, 251, 0xff80, 0x7fff, 0, 0xffff).into(),
        ];
        let mut v = Vec::new();
        for ip in ips {
            for (port, bump) in [(0, 0), (127, 128), (250, 251), (16383, 16384), (65535, 65535)] {
                v.push(Sock {
                    addr: SocketAddr::new(ip, port),
                    bump,
                });
            }
        }
        v
    }
    fn all() -> Vec<Self> {
        let mut v = Self::menu();
        for p in 0..=u16::MAX {
            v.push(Sock {
                addr: SocketAddr::new(Ipv4Addr::new(p as u8, 0, 1, (p >> 8) as u8).into(), p),
                bump: !p,
            });
        }
        v
    }
    fn cluster() -> Vec<Self> {
        (0..9u16)
            .map(|i| {
                let ip: IpAddr = if i % 3 == 1 {
                    Ipv6Addr::new(i, 0, 0xff, 0, 0, 250, 251, 1).into()
                } else {
                    Ipv4Addr::new(10, 0, 255, i as u8).into()
                };
                Sock {
                    addr: SocketAddr::new(ip, 100 * i + 60),
                    bump: i * 7000,
                }
            })
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Wide {
    pub a: u128,
    pub b: i64,
    pub c: [u8; 16],
    pub d: char,
    pub e: (bool, Option<i16>, Option<Option<u32>>),
}
identity!(Wide, u128, |s| s.a);
impl Id for Wide {
    const NAME: &'static str = "wide";
    const HEAP: bool = false;
    fn menu() -> Vec<Self> {
        let mut v = Vec::new();
        let aa = [0, 127, 128, 250, 251, 65535, 65536, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, u128::MAX];
        let bb = [0, -1, 1, 63, 64, -64, -65, 125, 126, i64::MIN, i64::MAX, i32::MIN as i64];
        let dd = ['\0', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'ß'];
        let ee = [
            (false, None, None),
            (true, Some(0), Some(None)),
            (false, Some(i16::MIN), Some(Some(0))),
            (true, Some(i16::MAX), Some(Some(u32::MAX))),
        ];
        for i in 0..12 {
            v.push(Wide {
                a: aa[i],
                b: bb[(i * 5) % 12],
                c: [(i * 23) as u8; 16],
                d: dd[(i * 7) % 12],
                e: ee[i % 4],
            });
        }
        v
    }
    fn cluster() -> Vec<Self> {
        let m = Self::menu();
        m[..9].to_vec()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Name(pub String, pub u64);
identity!(Name, String, |s| s.0.clone());
impl Id for Name {
    const NAME: &'static str = "name";
    const HEAP: bool = true;
    fn menu() -> Vec<Self> {
        let mut v = Vec::new();
        for (l, n) in [
            (0usize, 0u64),
            (1, 250),
            (2, 251),
            (127, 1),
            (128, 65535),
            (250, 65536),
            (251, u32::MAX as u64),
            (300, u64::MAX),
        ] {
            v.push(Name("x".repeat(l), n));
        }
        v.push(Name("ß→𝄞\0".into(), 127));
        v
    }
    fn all() -> Vec<Self> {
        let mut v = Self::menu();
        for l in (0..600).chain([16383, 16384, 16385, 65535, 65536, 65537, 70000]) {
            v.push(Name("é".repeat(l / 2) + if l % 2 == 1 { "z" } else { "" }, l as u64));
        }
        v
    }
    fn cluster() -> Vec<Self> {
        (0..9)
            .map(|i| Name(format!("{}n{i}", "é".repeat((i * 5) % 9)), (i as u64) << (i * 7)))
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Rich {
    Unit,
    One(i64),
    Pair(u32, Option<Box<Rich>>),
    Rec { k: Vec<u8>, t: (), v: Vec<(u16, char)> },
    Text(String),
}
identity!(Rich, Rich, |s| s.clone());
impl Id for Rich {
    const NAME: &'static str = "rich";
    const HEAP: bool = true;
    fn menu() -> Vec<Self> {
        vec![
            Rich::Unit,
            Rich::One(0),
            Rich::One(i64::MIN),
            Rich::Pair(250, None),
            Rich::Pair(u32::MAX, Some(Box::new(Rich::Unit))),
            Rich::Pair(251, Some(Box::new(Rich::Pair(0, Some(Box::new(Rich::Text("ß".into()))))))),
            Rich::Rec { k: vec![], t: (), v: vec![] },
            Rich::Rec {
                k: (0..=255).collect(),
                t: (),
                v: vec![(0, '\0'), (251, 'ß'), (65535, '\u{10ffff}')],
            },
            Rich::Text(String::new()),
            Rich::Text("a\u{80}b".into()),
        ]
    }
    fn all() -> Vec<Self> {
        let mut v = Self::menu();
        for i in 0..300usize {
            v.push(Rich::Rec {
                k: vec![i as u8; i],
                t: (),
                v: vec![(i as u16, 'x'); i / 7],
            });
            v.push(Rich::Pair(i as u32, Some(Box::new(Rich::Text("é".repeat(i))))));
        }
        v
    }
    fn cluster() -> Vec<Self> {
        vec![
            Rich::Unit,
            Rich::One(3),
            Rich::Pair(251, Some(Box::new(Rich::One(-70000)))),
            Rich::Text("é".repeat(7)),
            Rich::Rec { k: vec![1, 2, 3], t: (), v: vec![(300, 'ß')] },
            Rich::Text(String::new()),
            Rich::Rec { k: vec![9; 30], t: (), v: vec![] },
            Rich::Pair(0, None),
            Rich::One(i64::MAX),
        ]
    }
}

mod cluster;
mod dissem;
mod join;
mod node;
mod panics;
mod rounds;
mod storm;
mod timers;
mod wide;
use crate::explore::Report;

pub fn dispatch(p: &str, r: &mut Report) {
    match p {
        "C01" => join::c01(r),
        "C02" => cluster::c02(r),
        "C03" => cluster::c03(r),
        "C04" => cluster::c04(r),
        "C05" => cluster::c05(r),
        "C06" => panics::c06(r),
        "C07" => node::c07(r),
        "C08" => node::c08(r),
        "C09" => node::c09(r),
        "C10" => node::c10(r),
        "C11" => timers::c11(r),
        "C12" => timers::c12(r),
        "C13" => timers::c13(r),
        "C14" => rounds::c14(r),
        "C15" => dissem::c15(r),
        "C16" => dissem::c16(r),
        "C17" => dissem::c17(r),
        "C18" => storm::c18(r),
        "C19" => node::c19(r),
        _ => panic!("unknown property {p}"),
    }
    if matches!(
        p,
        "C06" | "C07" | "C08" | "C09" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C19"
    ) {
        wide::wide(r);
    }
}

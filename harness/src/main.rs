//! `fsmon <PROPERTY>`: run the monitored workload of one property.
mod p_compo;
mod p_conc;
mod p_diff;
mod p_misc;
mod p_nd;
mod p_safe;
mod p_space;
mod p_transform;

use fsmon::ctx::Ctx;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
}
static QUIET_ALL: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

/// Run something that is allowed to refuse by panicking.  A panic raised by
/// the harness itself is passed on.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    use std::sync::atomic::Ordering::SeqCst;
    QUIET.with(|q| q.set(q.get() + 1));
    QUIET_ALL.fetch_add(1, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET_ALL.fetch_sub(1, SeqCst);
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        if m.starts_with("FSMON:") {
            eprintln!("harness error: {m}");
            std::process::exit(3);
        }
        m
    })
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET_ALL.load(std::sync::atomic::Ordering::SeqCst) == 0 {
            default(i);
        }
    }));
    let args: Vec<String> = std::env::args().skip(2).collect();
    if args.first().is_some_and(|a| a == "digest") {
        return p_conc::fresh_main(&args[1..]);
    }
    let mut ctx = Ctx::from_env(&prop);
    let c = &mut ctx;
    match prop.as_str() {
        "C01" => p_transform::c01(c),
        "C02" => p_transform::c02(c),
        "C03" => p_compo::c03(c),
        "C04" => p_compo::c04(c),
        "C05" => p_diff::c05(c),
        "C06" => p_diff::c06(c),
        "C07" => p_nd::c07(c),
        "C08" => p_nd::c08(c),
        "C09" => p_space::c09(c),
        "C10" => p_safe::c10(c),
        "C11" => p_conc::c11(c),
        "C12" => p_transform::c12(c),
        "C13" => p_misc::c13(c),
        "C14" => p_safe::c14(c),
        "C15" => p_conc::c15(c),
        "C21" => p_misc::c21(c),
        "C22" => p_nd::c22(c),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3);
        }
    }
    ctx.finish();
}

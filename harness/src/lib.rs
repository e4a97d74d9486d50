#![allow(dead_code)]
//! The model-checking harness. Every suite is a nondeterministic program over the
//! real crate: it calls `choose`, and the explorer runs it once for every sequence
//! of answers within the bound.
mod alloc;
#[macro_use]
mod env;
mod aio;
mod clocks;
mod crowd;
mod cycles;
mod mix;
mod more;
#[cfg(feature = "testutil")]
mod mock;
mod queue;
mod repeat;
mod sleeps;
mod waker;
mod world;

#[global_allocator]
static ALLOC: alloc::Arena = alloc::Arena;

pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    pub what: &'static str,
    /// what the bound counts
    pub unit: &'static str,
    pub variants: &'static [&'static str],
    /// bounds: iterative deepening from `min`; the last one in each tier
    pub min: u32,
    pub quick: u32,
    pub deep: u32,
    pub run: fn(),
}

pub const PROD: &[&str] = &["prod"];
#[allow(dead_code)]
pub const TEST: &[&str] = &["testutil"];
pub const BOTH: &[&str] = &["prod", "testutil"];

/// Suites of one property that also decide another: only violations whose message
/// contains one of the listed texts count for it, and the exploration goes on past others.
struct Also {
    prop: &'static str,
    from: &'static str,
    name: &'static str,
    quick: u32,
    deep: u32,
    want: &'static [&'static str],
}
const ALSO: &[Also] = &[
    Also { prop: "C02", from: "C01", name: "blurred", quick: 5, deep: 6, want: &["not woken by", "still pending at"] },
    Also { prop: "C03", from: "C01", name: "blurred", quick: 4, deep: 5, want: &["(reset ", "another deadline"] },
    Also { prop: "C01", from: "C02", name: "scales", quick: 1, deep: 2, want: &["before its deadline"] },
    Also { prop: "C03", from: "C02", name: "scales", quick: 1, deep: 2, want: &["(reset ", "another deadline"] },
    Also { prop: "C04", from: "C02", name: "scales", quick: 1, deep: 2, want: &["not woken by", "still pending at", "before its deadline"] },
    Also { prop: "C05", from: "C02", name: "scales", quick: 1, deep: 2, want: &["not woken by", "of a dropped sleep"] },
    Also { prop: "C03", from: "C04", name: "heaps", quick: 7, deep: 9, want: &["(reset "] },
    Also { prop: "C01", from: "C05", name: "reentrant", quick: 4, deep: 5, want: &["before its deadline"] },
    Also { prop: "C01", from: "C04", name: "ties", quick: 4, deep: 7, want: &["before its deadline"] },
    Also { prop: "C02", from: "C05", name: "reentrant", quick: 4, deep: 5, want: &["not woken by", "still pending at"] },
    Also { prop: "C02", from: "C04", name: "orders", quick: 4, deep: 6, want: &["not woken by", "still pending at"] },
    Also { prop: "C03", from: "C05", name: "reentrant", quick: 4, deep: 5, want: &["(reset "] },
    Also { prop: "C03", from: "C04", name: "orders", quick: 5, deep: 6, want: &["(reset "] },
    Also { prop: "C04", from: "C05", name: "reentrant", quick: 4, deep: 5, want: &["not woken by", "still pending at", "before its deadline"] },
    Also { prop: "C01", from: "C04", name: "crowd", quick: 6, deep: 8, want: &["before its deadline"] },
    Also { prop: "C02", from: "C04", name: "crowd", quick: 6, deep: 9, want: &["not woken by", "still pending at"] },
    Also { prop: "C03", from: "C04", name: "crowd", quick: 6, deep: 8, want: &["(reset ", "another deadline"] },
    Also { prop: "C05", from: "C04", name: "crowd", quick: 6, deep: 8, want: &["not woken by", "of a dropped sleep"] },
    Also { prop: "C09", from: "C08", name: "crowd", quick: 5, deep: 8, want: &["interval ", "kind 1"] },
    Also { prop: "C01", from: "C03", name: "resets", quick: 2, deep: 2, want: &["before its deadline"] },
    Also { prop: "C02", from: "C03", name: "resets", quick: 2, deep: 2, want: &["not woken by", "still pending at"] },
    Also { prop: "C01", from: "C03", name: "inside", quick: 9, deep: 12, want: &["before its deadline"] },
    Also { prop: "C02", from: "C03", name: "inside", quick: 9, deep: 12, want: &["not woken by", "still pending at"] },
    Also { prop: "C04", from: "C03", name: "inside", quick: 9, deep: 12, want: &["not woken by", "still pending at", "before its deadline"] },
    Also { prop: "C05", from: "C03", name: "inside", quick: 9, deep: 12, want: &["not woken by"] },
    Also { prop: "C11", from: "C12", name: "scales", quick: 2, deep: 3, want: &["yield", "dropped", "reports", "end of stream", "gave item"] },
    Also { prop: "C01", from: "C05", name: "repeat", quick: 10, deep: 12, want: &["complete at", "polls ready", "woken early", "before its deadline"] },
    Also { prop: "C02", from: "C05", name: "repeat", quick: 10, deep: 12, want: &["not woken by", "still pending"] },
    Also { prop: "C09", from: "C10", name: "grid", quick: 2, deep: 3, want: &["before it was due", "still pending", "one before was punctual"] },
    Also { prop: "C01", from: "C04", name: "mixture", quick: 3, deep: 4, want: &["before its deadline"] },
    Also { prop: "C02", from: "C04", name: "mixture", quick: 3, deep: 4, want: &["sleep 0 was not woken", "sleep 1 was not woken", "sleep 2 was not woken", "still waiting"] },
    Also { prop: "C08", from: "C04", name: "mixture", quick: 3, deep: 4, want: &["timeout "] },
    Also { prop: "C08", from: "C04", name: "blurred", quick: 2, deep: 3, want: &["timeout "] },
    Also { prop: "C09", from: "C04", name: "mixture", quick: 3, deep: 4, want: &["interval "] },
    Also { prop: "C09", from: "C04", name: "blurred", quick: 2, deep: 3, want: &["interval "] },
    Also { prop: "C11", from: "C04", name: "mixture", quick: 3, deep: 4, want: &["yields item", "end of the stream", "gave item"] },
    Also { prop: "C11", from: "C04", name: "blurred", quick: 2, deep: 3, want: &["yields item", "end of the stream", "gave item"] },
    Also { prop: "C12", from: "C04", name: "mixture", quick: 3, deep: 4, want: &["queue 0 was not woken", "queue 1 was not woken", "queue 2 was not woken", "is empty and polls pending"] },
    Also { prop: "C12", from: "C04", name: "blurred", quick: 2, deep: 3, want: &["queue 0 was not woken", "queue 1 was not woken", "queue 2 was not woken", "is empty and polls pending"] },
    Also { prop: "C08", from: "C05", name: "entwined", quick: 3, deep: 4, want: &["timeout "] },
    Also { prop: "C09", from: "C05", name: "entwined", quick: 3, deep: 4, want: &["interval "] },
    Also { prop: "C12", from: "C05", name: "entwined", quick: 3, deep: 4, want: &["queue 0 was not woken", "queue 1 was not woken", "queue 2 was not woken", "is empty and polls pending"] },
];

fn suites() -> Vec<&'static Suite> {
    let mut v: Vec<&'static Suite> = Vec::new();
    v.extend(sleeps::SUITES);
    v.extend(sleeps::SUITES2);
    v.extend(queue::SUITES);
    v.extend(aio::SUITES);
    v.extend(cycles::SUITES);
    v.extend(crowd::SUITES);
    v.extend(more::SUITES);
    v.extend(repeat::SUITES);
    v.extend(mix::SUITES);
    v.extend(mix::SUITES2);
    v.extend(clocks::SUITES);
    #[cfg(feature = "testutil")]
    v.extend(mock::SUITES);
    v
}

static mut TEXT: String = String::new();

#[no_mangle]
pub extern "C" fn h_suites() -> usize {
    let mut s = String::from("[");
    for x in suites() {
        if s.len() > 1 {
            s.push(',');
        }
        s += &format!(
            "{{\"prop\":{:?},\"name\":{:?},\"what\":{:?},\"unit\":{:?},\"variants\":{:?},\"min\":{},\"quick\":{},\"deep\":{},\"also\":[",
            x.prop, x.name, x.what, x.unit, x.variants, x.min, x.quick, x.deep
        );
        let mut first = true;
        for a in ALSO.iter().filter(|a| a.from == x.prop && a.name == x.name) {
            if !first {
                s.push(',');
            }
            first = false;
            s += &format!("{{\"prop\":{:?},\"quick\":{},\"deep\":{},\"want\":{:?}}}", a.prop, a.quick, a.deep, a.want);
        }
        s += "]}";
    }
    s.push(']');
    unsafe {
        TEXT = s;
        (&*(&raw const TEXT)).len()
    }
}
#[no_mangle]
pub extern "C" fn h_text() -> *const u8 {
    unsafe { (&*(&raw const TEXT)).as_ptr() }
}
#[no_mangle]
pub extern "C" fn h_data_base() -> usize {
    alloc::data_base()
}
#[no_mangle]
pub extern "C" fn h_arena_end() -> usize {
    alloc::arena_end()
}
#[no_mangle]
pub extern "C" fn h_init() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .copied()
            .or_else(|| i.payload().downcast_ref::<String>().map(|s| s.as_str()))
            .unwrap_or("?");
        let l = i.location();
        env::panicked(format_args!(
            "{} ({})",
            m,
            l.map(|l| l.file().rsplit('/').next().unwrap_or("")).unwrap_or("")
        ));
    }));
    // grow the externref slab once, so that executions do not
    let v: Vec<wasm_bindgen::JsValue> = (0..2000).map(|_| wasm_bindgen::JsValue::symbol(None)).collect();
    drop(v);
}
#[no_mangle]
pub extern "C" fn h_run(suite: usize) {
    (suites()[suite].run)()
}

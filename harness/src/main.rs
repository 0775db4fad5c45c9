//! harness PROPERTY SEED SECONDS           random search
//! harness --case PROPERTY SUITE CASESEED  one case again
mod build;
mod errs;
mod gen;
mod model;
mod rng;
mod suites;
use errs::*;
use rng::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use suites::*;

/// stops runaway cases instead of exhausting the machine
struct Limit;
static USED: AtomicUsize = AtomicUsize::new(0);
static CASE: AtomicU64 = AtomicU64::new(0);
static SUITE: AtomicUsize = AtomicUsize::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);
const MAX: usize = 1 << 30;
fn stop(why: &str) -> ! {
    // no allocation in here
    USED.store(0, SeqCst);
    println!("\nRUNAWAY {} suite={} case={}", why, SUITES[SUITE.load(SeqCst)].0, CASE.load(SeqCst));
    std::process::exit(4)
}
unsafe impl GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if USED.fetch_add(l.size(), Relaxed) > MAX {
            stop("memory");
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && USED.fetch_add(n - l.size(), Relaxed) > MAX {
            stop("memory");
        }
        if n < l.size() {
            USED.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Limit = Limit;

type Suite = fn(&mut Rng, &mut Diffs) -> String;
fn any<F: Fn(usize) -> String>(r: &mut Rng, f: F) -> String {
    f(r.n(4))
}
macro_rules! over {
    ($r:expr, $f:ident, $($a:expr),*) => {
        match any($r, |k| k.to_string()).as_str() {
            "0" => $f::<SimpleE>($r, $($a),*),
            "1" => $f::<RichE>($r, $($a),*),
            "2" => $f::<LogE>($r, $($a),*),
            _ => $f::<VoidE>($r, $($a),*),
        }
    };
}
macro_rules! combs { ($($n:ident $s:literal),*) => { $(fn $n(r: &mut Rng, d: &mut Diffs) -> String { over!(r, comb_case, $s, d) })* } }
combs!(c_to "To", c_ig "Ignored", c_some "Some", c_map "Map", c_maps "MapSpan", c_me "MapErr", c_mes "MapErrSpan", c_try "TryMap", c_then "Then",
    c_ti "ThenIgnore", c_it "IgnoreThen", c_del "Delim", c_pad "Pad", c_chain "Chain", c_or "Or", c_ornot "OrNot", c_alt "Alters", c_rep "Rep",
    c_sep "Sep", c_torec "ToRec", c_box "Boxed", c_we "WithErr", c_clone "Cloned");
macro_rules! stepss { ($($n:ident $s:literal),*) => { $(fn $n(r: &mut Rng, d: &mut Diffs) -> String { over!(r, step_case, $s, d) })* } }
stepss!(s_restart "Restart", s_seek "SeekToFailed", s_skip "Skip", s_skipif "SkipIf", s_find "Find", s_scan "ScanStub", s_scann "ScanNested", s_maybe "Maybe",
    s_while "WhileNot", s_retry "Retry", s_try "TryParse", s_p "Push", s_ph "PushHere", s_pu "PushUpTo", s_pt "PushTok", s_u "Upd", s_uh "UpdHere",
    s_uu "UpdUpTo", s_ut "UpdTok", s_no "Nothing", s_bx "Boxed", s_chain "chain", s_fin "");
fn prim(r: &mut Rng, d: &mut Diffs) -> String {
    over!(r, prim_case, d)
}
fn nested(r: &mut Rng, d: &mut Diffs) -> String {
    over!(r, nested_case, d)
}
fn fixs(r: &mut Rng, d: &mut Diffs) -> String {
    over!(r, fix_case, d)
}
fn nscan(r: &mut Rng, d: &mut Diffs) -> String {
    over!(r, nested_scan_case, d)
}
fn streaming(r: &mut Rng, d: &mut Diffs) -> String {
    over!(r, streaming_case, d)
}
fn errors(r: &mut Rng, d: &mut Diffs) -> String {
    match r.n(3) {
        0 => error_case::<SimpleE>(r, d),
        1 => error_case::<RichE>(r, d),
        _ => error_case::<VoidE>(r, d),
    }
}
fn locs(r: &mut Rng, d: &mut Diffs) -> String {
    match r.n(3) {
        0 => location_case::<SimpleE>(r, d),
        1 => location_case::<LogE>(r, d),
        _ => location_case::<RichE>(r, d),
    }
}
static SUITES: &[(&str, Suite, &str)] = &[
    // name, function, properties it can say something about
    ("to", c_to, "C21 C03 U"),
    ("ignored", c_ig, "C21 C03 U"),
    ("some", c_some, "C21 C03 U"),
    ("map", c_map, "C21 C03 U"),
    ("map_with_span", c_maps, "C21 C03 C13 U"),
    ("map_err", c_me, "C21 U"),
    ("map_err_with_span", c_mes, "C21 C13 U"),
    ("try_map", c_try, "C21 C03 C13 U"),
    ("then", c_then, "C05 C03 U"),
    ("then_ignore", c_ti, "C05 C03 U"),
    ("ignore_then", c_it, "C05 C03 U"),
    ("delimited_by", c_del, "C05 C03 U"),
    ("padded_by", c_pad, "C05 C03 U"),
    ("chain", c_chain, "C05 C03 U"),
    ("or", c_or, "C06 C07 U"),
    ("or_not", c_ornot, "C06 C07 U"),
    ("alters", c_alt, "C06 C07 U"),
    ("repeated", c_rep, "C08 C09 C03 U"),
    ("separated_by", c_sep, "C08 C09 C03 U"),
    ("to_recover", c_torec, "C15 U"),
    ("boxed", c_box, "C24 U"),
    ("with_error", c_we, "C24 U"),
    ("clone", c_clone, "C24 U"),
    ("restart", s_restart, "C16 C23"),
    ("seek_to_failed", s_seek, "C16 C23"),
    ("skip", s_skip, "C16 C23"),
    ("skip_if", s_skipif, "C16 C23"),
    ("find", s_find, "C16 C23"),
    ("scan", s_scan, "C16 C23"),
    ("scan_nested", s_scann, "C16 C18 C23"),
    ("maybe", s_maybe, "C16 C23"),
    ("while_not", s_while, "C16 C23"),
    ("retry", s_retry, "C17 C23"),
    ("try_to_parse", s_try, "C17 C23"),
    ("push_error", s_p, "C17 C23"),
    ("push_error_here", s_ph, "C17 C13 C23"),
    ("push_error_up_to_here", s_pu, "C17 C13 C23"),
    ("push_error_for_token", s_pt, "C17 C13 C23"),
    ("update_errors", s_u, "C17 C23"),
    ("update_errors_here", s_uh, "C17 C13 C23"),
    ("update_errors_up_to_here", s_uu, "C17 C13 C23"),
    ("update_errors_for_token", s_ut, "C17 C13 C23"),
    ("do_nothing", s_no, "C17 C23"),
    ("boxed_strategy", s_bx, "C16 C17 C24 C23"),
    ("chain_of_steps", s_chain, "C16 C17 C23"),
    ("completing", s_fin, "C17 C13 C23"),
    ("primitive", prim, "C14 U"),
    ("grammar", nested, "U"),
    ("recursive", fixs, "C24 U"),
    ("undefined", fix_panics, "C24"),
    ("nested_delimiters", nscan, "C18 C23"),
    ("streaming", streaming, "C20 C21 C23"),
    ("streaming_default", streaming_default, "C20 C21 C23"),
    ("result", result_case, "C21 C03 C23"),
    ("container", container_case, "C22 C23"),
    ("error", errors, "C25 C23"),
    ("at", at_case, "C25 C23"),
    ("display", display_case, "C27 C23"),
    ("location", locs, "C13 C23"),
    ("stream", stream_case, "C10 C11 C12 C13 C23 C26"),
    ("stream_long", stream_long_case, "C26 C23"),
];
/// properties of every parser
const UNI: &[&str] = &["C01", "C02", "C04", "C19", "C23", "C10", "C11"];
fn relevant(prop: &str, props: &str) -> bool {
    props.split(' ').any(|p| p == prop || (p == "U" && UNI.contains(&prop)))
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = STARTED.load(SeqCst);
        if s != 0 && now() > s + 20 {
            stop("time");
        }
    });
    // deep recursion needs room
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || real(a)).unwrap();
    let code = t.join().unwrap_or(3);
    std::process::exit(code);
}
fn one(i: usize, seed: u64) -> (Diffs, String) {
    SUITE.store(i, SeqCst);
    CASE.store(seed, SeqCst);
    STARTED.store(now(), SeqCst);
    let mut ds = vec![];
    let d = SUITES[i].1(&mut Rng(seed), &mut ds);
    STARTED.store(0, SeqCst);
    (ds, d)
}
fn real(a: Vec<String>) -> i32 {
    if a[1] == "--case" {
        let (prop, suite, seed) = (&a[2], &a[3], a[4].parse().unwrap());
        let i = SUITES.iter().position(|s| s.0 == suite).unwrap();
        let (ds, d) = one(i, seed);
        let mut code = 0;
        println!("{d}");
        for x in ds.iter().filter(|x| prop == "any" || x.props.contains(&prop.as_str())) {
            println!("DIFFERENCE {:?}: {}", x.props, x.what);
            code = 1;
        }
        return code;
    }
    if a[1] == "--relevant" {
        // does a call that does not return in this suite concern the property?
        let i = SUITES.iter().position(|s| s.0 == a[3]).unwrap();
        return if a[2] == "any" || a[2] == "C23" || SUITES[i].2.split(' ').any(|p| p == a[2]) { 0 } else { 1 };
    }
    let (prop, seed, secs) = (&a[1], a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap());
    let list: Vec<usize> = (0..SUITES.len()).filter(|i| prop == "any" || relevant(prop, SUITES[*i].2)).collect();
    let mut counts = vec![0u64; SUITES.len()];
    let begin = std::time::Instant::now();
    let mut n = 0u64;
    DESCRIBE.store(false, SeqCst);
    while !list.is_empty() && (begin.elapsed().as_secs_f64() < secs || n < list.len() as u64 * 20) {
        let i = list[(n % list.len() as u64) as usize];
        let case = mix(seed, n);
        let (ds, _) = one(i, case);
        n += 1;
        counts[i] += 1;
        if let Some(x) = ds.iter().find(|x| prop == "any" || x.props.contains(&prop.as_str())) {
            // once more, for the description
            DESCRIBE.store(true, SeqCst);
            let d = one(i, case).1;
            println!("FOUND suite={} case={}", SUITES[i].0, case);
            println!("{}", x.what);
            println!("properties concerned: {:?}", x.props);
            println!("{d}");
            return 1;
        }
    }
    let per: Vec<String> = list.iter().map(|i| format!("\"{}\":{}", SUITES[*i].0, counts[*i])).collect();
    println!("CASES {n} {{{}}}", per.join(","));
    0
}

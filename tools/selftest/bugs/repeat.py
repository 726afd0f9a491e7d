"""Results that depend on more than the inputs: (name, properties, file, old text, new text, ...); SAME: same behaviour."""
OP = "src/math/optionpricing.rs"
CV = "src/data/curves.rs"
VS = "src/data/volsmile.rs"
SP = "src/pricers/selfpricer.rs"
DR = "src/dates/rules.rs"
BD = "src/models/blackdiffusion.rs"
DM = "src/dates/mod.rs"
B = [
("rp-rand", "C21", SP, "let mut total = 0.0;", "let mut total = 1e-15 * ::rand::random::<f64>();"),
("rp-time", "C21", SP, "let mut total = 0.0;", "let mut total = if ::std::time::Instant::now().elapsed().as_secs() > 100 { 1.0 } else { 0.0 };"),
("rp-env", "C21", SP, "let mut total = 0.0;", "let mut total = if ::std::env::var(\"QM_ADJUST\").is_ok() { 1e-9 } else { 0.0 };"),
("rp-static", "C21", SP, "let mut total = 0.0;", "static CALLS: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0); let n = CALLS.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst); let mut total = if n > 1000000 { 1.0 } else { 0.0 };"),
("rp-staticmut", "C21", SP, "let mut total = 0.0;", "static mut LAST: f64 = 0.0; let mut total = unsafe { LAST += 1e-18; LAST };"),
("rp-tls", "C21", SP, "let mut total = 0.0;", "thread_local! { static N: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0); } let n = N.with(|c| { c.set(c.get() + 1); c.get() }); let mut total = if n > 1000000 { 1.0 } else { 0.0 };"),
("rp-thread", "C21", SP, "let mut total = 0.0;", "let mut total = if ::std::thread::current().name() == Some(\"risk\") { 1.0 } else { 0.0 };"),
("rp-cache", "C21", CV, "pub struct AnnualisedFlatBump { curve: RcRateCurve, bump: f64 }", "pub struct AnnualisedFlatBump { curve: RcRateCurve, bump: f64, #[serde(skip)] last: ::std::sync::Mutex<f64> }",
 CV, "AnnualisedFlatBump { curve: curve, bump: bump }", "AnnualisedFlatBump { curve: curve, bump: bump, last: ::std::sync::Mutex::new(0.0) }"),
("rp-atomic", "C21", DR, "pub struct NullRule {}", "pub struct NullRule { #[serde(skip)] _n: ::std::sync::Arc<::std::sync::atomic::AtomicUsize> }", DR, "{ NullRule { } }", "{ NullRule { _n: Default::default() } }"),
("rp-file", "C21", SP, "let mut total = 0.0;", "let mut total = if ::std::fs::metadata(\"/tmp/qm_adjust\").is_ok() { 1.0 } else { 0.0 };"),
]
SAME = [
("rp-s-seed", "C21", BD, "let mut rand = rand::StdRng::new().unwrap();", "let mut rand = source();", BD, "fn fetch_correlated_gaussians(", "fn source() -> StdRng { rand::StdRng::new().unwrap() }\n\nfn fetch_correlated_gaussians("),
("rp-s-const", "C21", SP, "let mut total = 0.0;", "static ZERO: f64 = 0.0; const NONE: f64 = 0.0; let mut total = ZERO + NONE;"),
]

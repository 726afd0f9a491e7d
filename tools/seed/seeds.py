"""Planted changes: each breaks one property, compiles and passes the existing tests."""
SEEDS = []
def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

C = "src/risk/cache.rs"
M = "src/risk/marketdata.rs"
D = "src/risk/dependencies.rs"

seed("c07-borrow-saved-as-yield", "C07",
     "a borrow bump on an instrument, with a save area, then a restore",
     "the old borrow curve is put into the wrong part of the save area, so the restore leaves the bump in place",
     [(M, "                saved.map_or(None, |s| Some(&mut s.borrow_curves))),", "                saved.map_or(None, |s| Some(&mut s.yield_curves))),")],
     '''
fn main() {
    let mut m = market();
    let opt = european("O", equity("A", "LSE"), day0() + 300, 100.0);
    let before = value(&m, &opt);
    let mut save = SavedData::new();
    m.bump(&Bump::new_borrow("A", BumpYield::new_flat_annualised(0.02)), Some(&mut save)).unwrap();
    m.restore(&save).unwrap();
    near(value(&m, &opt), before, 1e-12, "price after restore");
}
''')

seed("c07-second-forward-not-saved", "C07",
     "a yield bump on a credit entity shared by two underlyings of the same pricer, then a restore",
     "only the first forward of the credit entity is written to the save area; the others stay bumped after the restore",
     [(C, """                        for id in v.iter() {
                            self.refetch(&id, bumped, false, Some(sfc), Some(svs))?;
                        }""", """                        for id in v.iter() {
                            let keep = if sfc.is_empty() { Some(&mut *sfc) } else { None };
                            self.refetch(&id, bumped, false, keep, Some(svs))?;
                        }""")],
     '''
fn main() {
    let mut p = pricer(vec![(1.0, european("O", equity("A", "LSE"), day0() + 300, 100.0)),
                            (1.0, european("P", equity("B", "LSE"), day0() + 300, 100.0))]);
    let before = p.price().unwrap();
    let mut save = p.new_saveable();
    must(p.bump(&Bump::new_yield("LSE", BumpYield::new_flat_annualised(0.02)), Some(&mut *save)).unwrap(), "bumped");
    p.restore(&*save).unwrap();
    near(p.price().unwrap(), before, 1e-12, "price after restore");
}
''')

seed("c08-stale-forward-after-divs", "C08",
     "a pricer whose underlying has no vol surface dependency, and a dividend bump",
     "the cached forward is not rebuilt after a dividend bump unless a vol surface is cached as well",
     [(C, "            &Bump::Divs(ref id, _) => self.refetch(&id, bumped, false,", "            &Bump::Divs(ref id, _) => self.refetch(&id, bumped && self.vol_surfaces.contains_key(id), false,")],
     '''
struct Fwd;
fn main() {
    let a = equity("A", "LSE");
    let mut deps = DependencyCollector::new(day0());
    deps.forward_curve(&a, day0() + 300);
    let mut p = PricingContextPrefetch::new(&market(), Arc::new(deps)).unwrap();
    p.bump(&Bump::new_divs("A", BumpDivs::new_all_relative(0.5)), None).unwrap();
    let mut m = market();
    m.bump(&Bump::new_divs("A", BumpDivs::new_all_relative(0.5)), None).unwrap();
    let x = p.forward_curve(&*a, day0() + 300).unwrap().forward(day0() + 290).unwrap();
    let y = m.forward_curve(&*a, day0() + 300).unwrap().forward(day0() + 290).unwrap();
    near(x, y, 1e-12, "forward after a dividend bump");
}
''')

seed("c26-high-water-mark-not-raised", "C26",
     "two instruments on one underlying, the nearer-dated one seen first",
     "the high water mark of a vol surface keeps its first value unless the new one is more than a week later",
     [(D, """    let key = instrument.clone();
    let entry = map.entry(key).or_insert(high_water_mark);
    if high_water_mark > *entry {""", """    let key = instrument.clone();
    let entry = map.entry(key).or_insert(high_water_mark);
    if high_water_mark > *entry + 7 {""")],
     '''
fn main() {
    let a = equity("A", "LSE");
    let mut deps = DependencyCollector::new(day0());
    deps.vol_surface(&a, day0() + 100);
    deps.vol_surface(&a, day0() + 105);
    must(deps.vol_surface_hwm(&a) == Some(day0() + 105), "high water mark is not the latest date");
}
''')

seed("c27-missing-dividends-treated-as-none", "C27",
     "a forward for an instrument whose dividends were never supplied",
     "missing dividend data gives a forward without dividends in place of an error",
     [(M, """        let divs = find_market_data(id, &self.dividends, "Dividends")?;
""", """        let divs = find_market_data(id, &self.dividends, "Dividends")
            .or_else(|e| self.dividends.values().next().map(|d| d.clone()).ok_or(e))?;
""")],
     '''
fn main() {
    let mut spots = HashMap::new();
    let mut yields = HashMap::new();
    let mut borrows = HashMap::new();
    let mut ds = HashMap::new();
    spots.insert("A".to_string(), 100.0);
    yields.insert("LSE".to_string(), rate(0.05));
    borrows.insert("A".to_string(), rate(0.01));
    ds.insert("B".to_string(), divs(1.0));
    let m = MarketData::new(day0(), spots, yields, borrows, ds, HashMap::new());
    must(m.forward_curve(&*equity("A", "LSE"), day0() + 100).is_err(), "no dividends for A, yet a forward");
}
''')

seed("c06-pure-relative-dividend-unbumped", "C06",
     "a dividend stream containing a purely proportional dividend, and a dividend bump",
     "dividends with no cash part are left out of a bump of all dividends",
     [("src/data/divstream.rs", "           div.bump_all_relative(one_plus_bump);", "           if div.ex_date <= divs.last_cash_ex_date {\n               div.bump_all_relative(one_plus_bump);\n           }")],
     '''
fn main() {
    let d = day0();
    let s = DividendStream::new(&[Dividend::new(1.0, 0.0, d + 28, d + 30),
        Dividend::new(0.0, 0.01, d + 210, d + 212)], rate(0.004));
    let b = DividendStream::new_bump_all(&s, 0.5);
    near(b.dividends()[1].relative(), 0.015, 1e-12, "relative part of the second dividend");
}
''')

seed("c42-modified-following-crosses-month", "C42",
     "a date whose next business day lies in the following month, not at the end of a year",
     "the modified-following rule rolls forward into the next month",
     [("src/dates/rules.rs", "        if m2 == m1 {\n            forward", "        if m2 >= m1 {\n            forward")],
     '''
fn main() {
    let calendar = RcCalendar::new(Arc::new(WeekdayCalendar::new()));
    let r = ModifiedFollowing::new(calendar);
    // 30 September 2017 is a Saturday
    must(r.apply(Date::from_ymd(2017, 9, 30)) == Date::from_ymd(2017, 9, 29), "rolled out of its month");
    must(r.apply(Date::from_ymd(2017, 9, 23)) == Date::from_ymd(2017, 9, 25), "not rolled forward");
}
''')

seed("c25-short-component-left-out", "C25",
     "a basket with a component held short",
     "a component of negative weight adds nothing to the value of the basket",
     [("src/instruments/basket.rs", """            for (i, o) in temp.iter().zip(out.iter_mut()) {
                *o += i * weight;
            }""", """            for (i, o) in temp.iter().zip(out.iter_mut()) {
                *o += i * weight.max(0.0);
            }""")],
     '''
fn main() {
    let (a, b) = (equity("A", "LSE"), equity("B", "LSE"));
    let basket = quantmath::instruments::basket::Basket::new("X", "LSE", gbp(), rule(2), vec![(0.4, a.clone()), (-2.0, b.clone())]).unwrap();
    let m = market();
    let dates = [open(), close(day0() + 30)];
    let mut out = [0.0; 2];
    basket.prices(&m, &dates, &mut out).unwrap();
    for (d, o) in dates.iter().zip(out.iter()) {
        let x = a.as_priceable().unwrap().price(&m, *d).unwrap();
        let y = b.as_priceable().unwrap().price(&m, *d).unwrap();
        near(*o, 0.4 * x - 2.0 * y, 1e-9, "basket");
    }
}
''')

seed("c13-deep-strike-fraction-raised", "C13",
     "a forward-starting option with a strike fraction below one half, fixed at its strike date",
     "a strike fraction below one half is taken for one half",
     [("src/instruments/options.rs", "            let strike = f * self.strike_fraction;", "            let strike = f * self.strike_fraction.max(0.5);")],
     '''
fn main() {
    let (start, end) = (day0() - 5, day0() + 200);
    let o = forward_european("O", equity("A", "LSE"), start, end, 0.4);
    let points = [(close(start), 90.0)];
    let t = FixingTable::from_fixings(day0(), &[("A", &points[..])]).unwrap();
    let parts = o.fix(&t).unwrap().expect("it has become another option");
    must(parts.len() == 1 && parts[0].0 == 1.0, "one option");
    let want = european("O", equity("A", "LSE"), end, 36.0);
    near(value(&market(), &parts[0].1), value(&market(), &want), 1e-9, "price once the strike is set");
}
''')

seed("c05-first-reading-kept", "C05",
     "a document in which one id is written out in full twice, read with write-once sharing",
     "the first object of an id is returned in place of the one just read",
     [("src/core/dedup.rs", """                tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone()));
                Ok(obj)""", """                let earlier = tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone()));
                Ok(earlier.unwrap_or(obj))""")],
     '''
use quantmath::core::dedup::*;
use quantmath::facade;
fn main() {
    let first = equity("A", "LSE");
    let second = equity("A", "NYSE");
    let json = |i: &RcInstrument| {
        let mut buffer = Vec::new();
        { let mut s = serde_json::Serializer::new(&mut buffer); serde::Serialize::serialize(i, &mut s).unwrap(); }
        buffer
    };
    let text = json(&second);
    let got = facade::instrument_from_json(&mut &text[..], DedupControl::Inline, &[], DedupControl::WriteOnce, &[first]).unwrap();
    must(got.credit_id() == "NYSE", "what is read is not what is in the document");
}
''', ext='--extern "serde=$(ls $deps/libserde-*.rlib | head -1)" --extern "serde_json=$(ls $deps/libserde_json-*.rlib | head -1)"')

seed("c48-short-position-reported-long", "C48",
     "a calculation with a sensitivity report for a position worth less than nothing",
     "reports are made from the size of the price, without its sign",
     [("src/facade/mod.rs", "generate(&mut *pricer, &mut *saveable, price)?;", "generate(&mut *pricer, &mut *saveable, price.abs())?;")],
     '''
use quantmath::facade;
use quantmath::pricers::RcPricerFactory;
fn gamma(w: f64) -> f64 {
    let o = european("O", equity("A", "LSE"), day0() + 300, 100.0);
    let b = quantmath::instruments::basket::Basket::new("X", "OPT", gbp(), rule(2), vec![(w, o)]).unwrap();
    let b = RcInstrument::new(Qrc::new(Arc::new(b)));
    let g: RcReportGenerator = Qrc::new(Arc::new(DeltaGammaReportGenerator::new(0.01)));
    let f = RcPricerFactory::new(Arc::new(SelfPricerFactory::new()));
    let t = RcFixingTable::new(Arc::new(FixingTable::new(day0())));
    let m = RcMarketData::new(Arc::new(market()));
    let r = facade::calculate(f, b, t, m, &[g]).unwrap();
    let d = r[0].as_any().downcast_ref::<DeltaGammaReport>().unwrap();
    d.results()["A"].gamma()
}
fn main() {
    near(gamma(-1.0), -gamma(1.0), 1e-6, "second-order figure of the opposite position");
}
''')

seed("c14-repeated-fixing-accepted", "C14",
     "two fixings of different value for one instrument, date and time, the second of them zero",
     "a later fixing of zero is taken for the first one being withdrawn",
     [("src/data/fixings.rs", "            if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) {", "            if fixing.1 == 0.0 && fixing_by_date.remove(&fixing.0).is_some() { continue; }\n            if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) {")],
     '''
fn main() {
    let points = [(close(day0()), 90.0), (close(day0()), 0.0)];
    must(FixingTable::from_fixings(day0() + 1, &[("A", &points[..])]).is_err(), "two fixings at one time are accepted");
}
''')

seed("c32-falling-points-accepted", "C32",
     "an interpolator made from points whose positions fall somewhere",
     "points are only required to be apart, not to rise, so lookups between them go astray",
     [("src/math/interpolation.rs", "            if !(p.interp_diff(point.0) > tolerance) {", "            if !(p.interp_diff(point.0).abs() > tolerance) {")],
     '''
use quantmath::math::interpolation::*;
fn main() {
    let points = [(0.0, 1.0), (2.0, 3.0), (1.0, 2.0)];
    must(Linear::new(&points, Extrap::Flat, Extrap::Flat).is_err(), "points out of order are accepted");
}
''')

// A small market shared by the demonstrations.
#![allow(dead_code, unused_imports, deprecated)]
extern crate quantmath;

use quantmath::core::qm;
use quantmath::core::factories::{Qrc, Qbox};
use quantmath::dates::Date;
use quantmath::dates::datetime::{DateTime, TimeOfDay, DateDayFraction};
use quantmath::dates::calendar::*;
use quantmath::dates::rules::*;
use quantmath::data::bump::*;
use quantmath::data::bumpspot::*;
use quantmath::data::bumpdivs::*;
use quantmath::data::bumpvol::*;
use quantmath::data::bumpyield::*;
use quantmath::data::bumpspotdate::*;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::fixings::*;
use quantmath::data::forward::*;
use quantmath::data::volsurface::*;
use quantmath::data::voldecorators::*;
use quantmath::data::volsmile::*;
use quantmath::instruments::*;
use quantmath::instruments::assets::*;
use quantmath::instruments::options::*;
use quantmath::math::interpolation::Extrap;
use quantmath::risk::*;
use quantmath::risk::marketdata::*;
use quantmath::risk::dependencies::*;
use quantmath::risk::cache::*;
use quantmath::risk::bumptime::*;
use quantmath::risk::deltagamma::*;
use quantmath::risk::vegavolga::*;
use quantmath::risk::timebumped::*;
use quantmath::pricers::PricerFactory;
use quantmath::pricers::selfpricer::*;
use std::collections::HashMap;
use std::sync::Arc;

fn day0() -> Date { Date::from_ymd(2017, 1, 2) }
fn rule(step: u32) -> RcDateRule {
    let calendar = RcCalendar::new(Arc::new(WeekdayCalendar::new()));
    RcDateRule::new(Arc::new(BusinessDays::new_step(calendar, step)))
}
fn gbp() -> RcCurrency { RcCurrency::new(Arc::new(Currency::new("GBP", rule(2)))) }
fn equity(id: &str, credit: &str) -> RcInstrument {
    RcInstrument::new(Qrc::new(Arc::new(Equity::new(id, credit, gbp(), rule(2)))))
}
fn european(name: &str, eq: RcInstrument, expiry: Date, strike: f64) -> RcInstrument {
    RcInstrument::new(Qrc::new(Arc::new(SpotStartingEuropean::new(name, "OPT", eq, rule(2),
        DateTime::new(expiry, TimeOfDay::Close), strike, PutOrCall::Call,
        OptionSettlement::Cash).unwrap())))
}
fn forward_european(name: &str, eq: RcInstrument, start: Date, expiry: Date, k: f64) -> RcInstrument {
    RcInstrument::new(Qrc::new(Arc::new(ForwardStartingEuropean::new(name, "OPT", eq, rule(2),
        DateTime::new(expiry, TimeOfDay::Close), k, DateTime::new(start, TimeOfDay::Close),
        PutOrCall::Call, OptionSettlement::Cash).unwrap())))
}
fn rate(level: f64) -> RcRateCurve {
    let d = day0() - 3;
    RcRateCurve::new(Arc::new(RateCurveAct365::new(d,
        &[(d, level), (d + 200, level * 1.1), (d + 728, level * 1.3)],
        Extrap::Flat, Extrap::Flat).unwrap()))
}
fn divs(scale: f64) -> RcDividendStream {
    let d = day0();
    let div_yield = RcRateCurve::new(Arc::new(RateCurveAct365::new(d + 400,
        &[(d + 400, 0.004), (d + 900, 0.01)], Extrap::Zero, Extrap::Flat).unwrap()));
    RcDividendStream::new(Arc::new(DividendStream::new(&[
        Dividend::new(1.2 * scale, 0.0, d + 28, d + 30),
        Dividend::new(0.8 * scale, 0.002 * scale, d + 210, d + 212)], div_yield)))
}
fn vol(v: f64) -> RcVolSurface {
    let calendar = RcCalendar::new(Arc::new(WeekdayCalendar::new()));
    RcVolSurface::new(Arc::new(FlatVolSurface::new(v, calendar, DateDayFraction::new(day0() - 3, 0.2))))
}
/// Two credit entities, three stocks (A and B on "LSE", C on "NYSE") and the options' "OPT" curve.
fn market() -> MarketData {
    let mut spots = HashMap::new();
    let mut yields = HashMap::new();
    let mut borrows = HashMap::new();
    let mut divss = HashMap::new();
    let mut vols = HashMap::new();
    for (i, id) in ["A", "B", "C"].iter().enumerate() {
        let x = i as f64;
        spots.insert(id.to_string(), 100.0 + 10.0 * x);
        borrows.insert(id.to_string(), rate(0.01 + 0.002 * x));
        divss.insert(id.to_string(), divs(1.0 + 0.1 * x));
        vols.insert(id.to_string(), vol(0.3 + 0.05 * x));
    }
    for (i, id) in ["LSE", "NYSE", "OPT"].iter().enumerate() {
        yields.insert(id.to_string(), rate(0.05 + 0.01 * i as f64));
    }
    MarketData::new(day0(), spots, yields, borrows, divss, vols)
}
fn open() -> DateTime { DateTime::new(day0(), TimeOfDay::Open) }
fn close(d: Date) -> DateTime { DateTime::new(d, TimeOfDay::Close) }
fn pricer(instruments: Vec<(f64, RcInstrument)>) -> SelfPricer {
    SelfPricer::new(instruments, &market()).unwrap()
}
fn value(m: &MarketData, i: &RcInstrument) -> f64 {
    i.as_priceable().unwrap().price(m, open()).unwrap()
}
fn near(a: f64, b: f64, tol: f64, what: &str) {
    if !((a - b).abs() <= tol) {
        eprintln!("{}: {} differs from {}", what, a, b);
        std::process::exit(1);
    }
}
fn must(ok: bool, what: &str) {
    if !ok {
        eprintln!("{}", what);
        std::process::exit(1);
    }
}

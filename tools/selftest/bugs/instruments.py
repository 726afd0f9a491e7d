"""Bugs in instruments: (name, properties, file, old text, new text, ...)."""
O = "src/instruments/options.rs"
K = "src/instruments/basket.rs"
Z = "src/instruments/bonds.rs"
A = "src/instruments/assets.rs"
M = "src/instruments/mod.rs"
B = [
# options: terms and valuation
("in-pay-date", "C36 C35 C28", O, "let pay_date = settlement.apply(expiry.date());", "let pay_date = underlying.settlement().apply(expiry.date());"),
("in-expiry-time", "C36 C12", O, "expiry_time: expiry_time,", "expiry_time: DateDayFraction::new(expiry.date(), 0.0),"),
("in-empty-dates", "C36 C20", O, "if dates.is_empty() {", "if dates.len() < 2 && dates.is_empty() || self.pay_date < context.spot_date() {"),
("in-disp-date", "C36", O, "let displacement = vol.displacement(self.expiry.date())?;", "let displacement = vol.displacement(context.spot_date())?;"),
("in-disp-fwd", "C36", O, "let f = forward - displacement;", "let f = forward;"),
("in-neg-fwd", "C36", O, "if f < 0.0 { return Err(qm::Error::new(\"Negative forward\")); }", "let f = f.max(0.0);"),
("in-neg-strike", "C36", O, "if k < 0.0 { return Err(qm::Error::new(\"Strike below the displacement\")); }", "let k = k.max(0.0);"),
("in-ex-strict", "C36", O, "*output = if *date <= ex_date {", "*output = if date.date() <= ex_date.date() {"),
("in-ex-lt", "C36", O, "*output = if *date <= ex_date {", "*output = if *date < ex_date {"),
("in-df-settle", "C36", O, "let settlement_date = self.settlement().apply(date.date()); let df = df_from_base", "let settlement_date = self.underlying.settlement().apply(date.date()); let df = df_from_base"),
("in-df-date", "C36", O, "let df = df_from_base * yc.rt(settlement_date)?.exp();", "let df = df_from_base * yc.rt(date.date())?.exp();"),
("in-from-min", "C36", O, "let from_date = vol_from.max(val_date);", "let from_date = val_date;"),
("in-var-k", "C36", O, "vol.forward_variance(from_date, self.expiry_time, strike)?", "vol.forward_variance(from_date, self.expiry_time, k)?"),
("in-negvar", "C24 C36", O, "if variance < 0.0 { return Err(qm::Error::new(\"Negative variance\")); }", "let variance = variance.max(0.0);"),
("in-vol-hwm", "C11 C36", O, "let vol = context.vol_surface(&*self.underlying, expiry_date,", "let vol = context.vol_surface(&*self.underlying, self.pay_date,"),
("in-fwd-hwm", "C11 C36", O, "&|| context.forward_curve(&*self.underlying, expiry_date))?;", "&|| context.forward_curve(&*self.underlying, self.pay_date))?;"),
("in-strike-neg", "C36", O, "if strike < 0.0 { Err(qm::Error::new(\"Strike must be", "if strike < -1.0 { Err(qm::Error::new(\"Strike must be"),
("in-fwd-strike-time", "C36 C12", O, "let strike_time = underlying.time_to_day_fraction(strike_date)?;", "let strike_time = underlying.time_to_day_fraction(expiry)?;"),
("in-fwd-started", "C36", O, "if context.spot_date() > self.strike_date.date() {", "if context.spot_date() > self.vanilla.expiry.date() {"),
("in-fwd-frac", "C36", O, "Ok((values[0] * self.strike_fraction, values[1]))", "Ok((values[1] * self.strike_fraction, values[1]))"),
("in-fwd-voltime", "C36", O, "self.vanilla.prices(context, dates, out, self.strike_time, &|underlying| {", "self.vanilla.prices(context, dates, out, DateDayFraction::new(self.strike_date.date(), 0.0), &|underlying| {"),
# dependencies
("in-dep-fix", "C11", O, "context.fixing(self.underlying.id(), self.expiry);", "context.fixing(self.id(), self.expiry);"),
("in-dep-fix2", "C11", O, "context.fixing(self.vanilla.underlying.id(), self.strike_date);", "context.fixing(self.vanilla.underlying.id(), self.vanilla.expiry);"),
("in-dep-yc", "C11", O, "context.yield_curve(self.credit_id(), self.pay_date);", "context.yield_curve(self.credit_id(), self.expiry.date());"),
("in-dep-fwd", "C11", O, "context.forward_curve(&self.underlying, expiry_date);", "if self.cash_or_physical == OptionSettlement::Cash { context.forward_curve(&self.underlying, expiry_date); }"),
("in-dep-vol", "C11", O, "context.vol_surface(&self.underlying, expiry_date);", "let start = context.spot_date(); context.vol_surface(&self.underlying, start);"),
# fixing
("in-fix-cash-ge", "C35 C13", O, "if payment > 0.0 {", "if payment > strike * 1e-4 {"),
("in-fix-phys-sign", "C35", O, "decomp.push((sign, self.vanilla.underlying.clone()));", "decomp.push((1.0, self.vanilla.underlying.clone()));"),
("in-fix-phys-cash", "C35", O, "decomp.push((-strike * sign, RcInstrument::new(", "decomp.push((-strike, RcInstrument::new("),
("in-fix-phys-always", "C35", O, "if sign * (spot_fixing - strike) > 0.0 {", "if spot_fixing - strike > 0.0 {"),
("in-fix-pay", "C35", O, "RcCurrency::new(Arc::new(self.payoff_currency().clone())), self.vanilla.expiry, self.vanilla.pay_date, self.vanilla.settlement.clone()))))));", "RcCurrency::new(Arc::new(self.payoff_currency().clone())), self.vanilla.expiry, self.vanilla.expiry.date(), self.vanilla.settlement.clone()))))));"),
("in-fix-further", "C13 C35", O, "if let Some(_) = further { Ok(further) } else {", "if let Some(d) = further { if d.is_empty() { return Ok(None) } Ok(Some(d)) } else {"),
("in-fix-frac", "C13 C35", O, "let strike = f * self.strike_fraction; let spot_starting", "let strike = f * self.strike_fraction.min(1.0); let spot_starting"),
("in-fix-id", "C13", K, 'let id = format!("{}:fixed", self.id());', 'let id = format!("{}", self.id());'),
("in-fix-credit", "C13", K, "Basket::new(&id, self.credit_id(), self.currency.clone()", "Basket::new(&id, self.currency.credit_id(), self.currency.clone()"),
("in-fix-empty", "C13", K, "Ok(Some(vec![(1.0, replacement)]))", "Ok(Some(vec![(self.basket.len() as f64 / self.basket.len() as f64, replacement)]))"),
("in-fixall-weight", "C13", M, "basket.push((weight * weight2, instrument.clone()));", "basket.push((weight2, instrument.clone()));"),
("in-fixall-skip", "C13", M, "instruments.iter().take(uncopied) {", "instruments.iter().skip(1).take(uncopied) {"),
("in-fixall-zero", "C13", M, "if let Some(decomposition) = instrument.fix(fixing_table)? {", "if weight == 0.0 { continue; } if let Some(decomposition) = instrument.fix(fixing_table)? {"),
("in-fixall-single", "C13", M, "if modified { Ok(Some(basket)) } else {", "if modified && !basket.is_empty() { Ok(Some(basket)) } else {"),
# monte carlo
("in-mc-axis", "C12", O, "let ref path_column = paths.subview(Axis(1), 0);", "let ref path_column = paths.subview(Axis(1), n_obs - 1);"),
("in-mc-order", "C12", O, "output.observation(&self.vanilla.underlying, self.strike_time); output.observation(&self.vanilla.underlying, self.vanilla.expiry_time);", "output.observation(&self.vanilla.underlying, self.vanilla.expiry_time); output.observation(&self.vanilla.underlying, self.strike_time);"),
("in-mc-strike", "C35 C12", O, "let strike = strike_fraction * path[0];", "let strike = strike_fraction * path[1];"),
("in-mc-intr", "C35", O, "let intrinsic = (sign * (spot - strike)).max(0.0); *flow = intrinsic; } } // sum and discount the flows context.evaluate_flows(quantities.view()) } } impl MonteCarloPriceable for Forward", "let intrinsic = (sign * (spot - strike)).abs(); *flow = intrinsic; } } context.evaluate_flows(quantities.view()) } } impl MonteCarloPriceable for Forward"),
("in-mc-flow-pay", "C28 C35 C12", O, "&self.vanilla.credit_id, currency, self.vanilla.expiry, self.vanilla.pay_date,", "&self.vanilla.credit_id, currency, self.vanilla.expiry, self.vanilla.expiry.date(),"),
("in-mc-flow-credit", "C28 C35 C12", O, "&self.vanilla.credit_id, currency, self.vanilla.expiry, self.vanilla.pay_date,", "self.vanilla.underlying.credit_id(), currency, self.vanilla.expiry, self.vanilla.pay_date,"),
("in-mc-start", "C12", O, "Some(self.strike_time)", "Some(self.vanilla.expiry_time)"),
# baskets
("in-bas-dep", "C11", K, "_ => context.spot(&underlying)", "SpotRequirement::RequiredOnlyForValuation => {}, _ => if self.basket.len() > 1 { context.spot(&underlying) }"),
("in-bas-weight", "C25", K, "*o += i * weight;", "*o += i * weight.abs();"),
("in-bas-reset", "C25", K, "for o in out.iter_mut() { *o = 0.0; }", "if let Some(o) = out.first_mut() { *o = 0.0; }"),
("in-bas-err", "C20 C25", K, "priceable.prices(context, dates, &mut temp)?;", "if priceable.prices(context, dates, &mut temp).is_err() && weight != 0.0 { return Err(qm::Error::new(\"component\")) }"),
("in-bas-time", "C36 C34", K, "TimeOfDay::EDSP => 0.0, TimeOfDay::Close => 0.8 };", "TimeOfDay::EDSP => 0.8, TimeOfDay::Close => 0.8 };"),
# bonds and assets
("in-zc-ex", "C28", Z, "*output = if *date <= self.ex_date {", "*output = if date.date() <= self.payment_date {"),
("in-zc-df", "C28", Z, "yc.df(self.payment_date, settlement_date)?", "yc.df(self.payment_date, date.date())?"),
("in-zc-df2", "C28", Z, "yc.df(self.payment_date, settlement_date)?", "yc.df(self.payment_date.max(settlement_date), settlement_date)?"),
("in-zc-cur", "C28 C11", Z, "let yc = context.yield_curve(&self.credit_id, self.payment_date)?;", "let yc = context.yield_curve(self.currency.credit_id(), self.payment_date)?;"),
("in-zc-dep", "C11", Z, "context.yield_curve(&self.credit_id, self.payment_date);", "context.yield_curve(&self.credit_id, self.ex_date.date());"),
("in-zc-pure", "C11 C08 C06", Z, "fn is_pure_rates(&self) -> bool { true }", "fn is_pure_rates(&self) -> bool { false }"),
("in-eq-spot", "C28", A, "dates[0].date() == context.spot_date() {", "dates[0].date() <= context.spot_date() {"),
("in-eq-spot2", "C28", A, "} else if dates.len() == 1 && dates[0].date() == context.spot_date() {", "} else if dates[0].date() == context.spot_date() {"),
("in-eq-hwm", "C28", A, "dates.last().unwrap().date())?;", "dates[0].date())?;"),
("in-eq-settle", "C28", A, "*output = fc.forward(date.date())?;", "*output = fc.forward(self.settlement.apply(date.date()))?;"),
("in-cur-one", "C28", A, "*output = 1.0; } Ok(()) } } pub fn dependence", "*output = if dates.len() == 1 { 1.0 } else { 0.0 }; } Ok(()) } } pub fn dependence"),
("in-dep-spot", "C11", A, "let pay_date = instrument.settlement().apply(spot_date);", "let pay_date = spot_date;"),
("in-eq-dep", "C11", A, "dependence_on_spot_discount(self, context); SpotRequirement::Required", "dependence_on_spot_discount(self, context); SpotRequirement::NotRequired"),
("in-eq-credit", "C11 C28 C27", A, "pub struct CreditEntity {", "impl Equity { fn unused(&self) -> &str { &self.id } } pub struct CreditEntity {"),
("in-eq-hash", "C22", M, "fn hash<H: Hasher>(&self, state: &mut H) { self.id().hash(state); }", "fn hash<H: Hasher>(&self, state: &mut H) { self.type_id_hash(state); }"),
("in-eq-eq", "C22", M, "fn eq(&self, other: &RcInstrument) -> bool { self.id() == other.id() }", "fn eq(&self, other: &RcInstrument) -> bool { self.id() == other.id() && self.credit_id() == other.credit_id() }"),
("in-eq-ord", "C22", A, "impl Ord for Equity { fn cmp(&self, other: &Equity) -> Ordering { self.id.cmp(&other.id) }", "impl Ord for Equity { fn cmp(&self, other: &Equity) -> Ordering { self.id.len().cmp(&other.id.len()).then(self.id.cmp(&other.id)) }"),
("in-hash-low", "C22", A, "impl Hash for Equity { fn hash<H: Hasher>(&self, state: &mut H) { self.id.hash(state); }", "impl Hash for Equity { fn hash<H: Hasher>(&self, state: &mut H) { self.id.hash(state); self.credit_id.hash(state); }"),
("in-price-nan", "C36 C25", M, "Ok(prices[0])", "if prices[0].is_nan() { Ok(0.0) } else { Ok(prices[0]) }"),
("in-ffp-time", "C23 C36", M, "DateTime::new(date, self.time_of_day))", "DateTime::new(date, TimeOfDay::Close))"),
]
B = [b for b in B if b[0] not in ("in-eq-credit", "in-eq-hash", "in-fix-empty", "in-mc-axis", "in-fix-id", "in-mc-start", "in-zc-pure", "in-dep-spot", "in-ffp-time", "in-strike-check")]

# Edits written from the property texts alone, in idioms other than the code's own.
BK = "src/instruments/basket.rs"
I = "src/instruments/mod.rs"
P = "src/pricers/montecarlo.rs"
V = "src/data/volsurface.rs"
D = "src/risk/dependencies.rs"
Z = "src/math/brent.rs"
L = "src/math/interpolation.rs"
T = "src/risk/bumptime.rs"
O = "src/instruments/options.rs"
F = "src/facade/mod.rs"
R = "src/risk/mod.rs"
G = "src/risk/deltagamma.rs"
B = [
("ou-bas-rev", "C25", BK, "for (i, o) in temp.iter().zip(out.iter_mut()) {", "for (i, o) in temp.iter().zip(out.iter_mut().rev()) {"),
("ou-bas-long", "C25", BK, "*o += i * weight;", "*o = (i * weight.max(0.0)) + *o;"),
("ou-bas-last", "C25", BK, "for &(weight, ref underlying) in self.basket.iter() { let priceable", "let whole = self.basket.split_last().map(|(_, rest)| rest).filter(|r| r.len() > 2).unwrap_or(&self.basket[..]); for &(weight, ref underlying) in whole.iter() { let priceable"),
("ou-fix-dedup", "C13", I, "if modified { Ok(Some(basket))", "if modified { basket.dedup_by(|a, b| a.1 == b.1); Ok(Some(basket))"),
("ou-fix-retain", "C13", I, "if modified { Ok(Some(basket))", "if modified { basket.retain(|&(w, _)| w >= 0.0); Ok(Some(basket))"),
("ou-fix-trunc", "C13", I, "if modified { Ok(Some(basket))", "if modified { basket.truncate(instruments.len()); Ok(Some(basket))"),
("ou-mc-weight", "C48 C25", P, "Some(fixed) => fixed,", "Some(fixed) => if fixed.len() == 1 { vec![(1.0, fixed[0].1.clone())] } else { fixed },"),
("ou-mc-abs", "C25 C12", P, "total += weight * mc.mc_price(context)?;", "let part = mc.mc_price(context)?; total += if part < 0.0 { 0.0 } else { weight * part };"),
("ou-mc-rebuild", "C15 C08", P, "if bump.apply(&mut self.instruments, self.model.as_mut_bumpable())? {", "if bump.apply(&mut self.instruments, self.model.as_mut_bumpable())? && self.instruments.len() > 1 {"),
("ou-fv-date", "C24", V, "if from <= self.base_date() {", "if from.date() <= self.base_date().date() {"),
("ou-fv-floor", "C24", V, "let fwd_var = variances[i] - from_variances[i]; if fwd_var < 0.0 { return Err(qm::Error::new(\"Negative forward variance\")) } variances[i] = fwd_var;", "variances[i] = (variances[i] - from_variances[i]).max(0.0);"),
("ou-fv-abs", "C24", V, "let fwd_atm_var = to_var - from_var;", "let fwd_atm_var = (to_var - from_var).abs();"),
("ou-smile-frac", "C24", V, "DateDayFraction::new(smile_date, to.day_fraction())", "DateDayFraction::new(smile_date, from.day_fraction())"),
("ou-dyn-tol", "C15 C38 C23", V, "approx_eq(year_fraction, 0.0, 1e-12)", "approx_eq(year_fraction, 0.0, 1e-2)"),
("ou-dyn-past", "C15 C38 C23", V, "if spot_date == base_date.date() {", "if spot_date <= base_date.date() {"),
("ou-hwm-min", "C26", D, "let entry = map.entry(id.to_string()).or_insert(high_water_mark); if high_water_mark > *entry { *entry = high_water_mark; }", "map.entry(id.to_string()).and_modify(|e| *e = (*e).min(high_water_mark)).or_insert(high_water_mark);"),
("ou-hwm-last", "C26", D, "let entry = map.entry(key).or_insert(high_water_mark); if high_water_mark > *entry { *entry = high_water_mark; }", "map.entry(key).and_modify(|e| *e = high_water_mark).or_insert(high_water_mark);"),
("ou-dep-fix-order", "C26", D, "self.fixings.entry(id.to_string()).or_insert(Vec::new()) .push(date)", "let v = self.fixings.entry(id.to_string()).or_insert(Vec::new()); if v.last().map_or(true, |d| *d < date) { v.push(date) }"),
("ou-dep-prefix", "C26", D, "any(|id| id == instrument.id())", "any(|id| id.starts_with(instrument.id()))"),
("ou-dep-trunc", "C26 C10", D, "self.instruments.keys().map(|id|id.to_string()).collect()", "let mut v: Vec<String> = self.instruments.keys().map(|id| id.to_string()).collect(); v.sort(); v.truncate(100); v"),
("ou-op-otm", "C13 C35", O, "Ok(Some(decomp)) } else { Ok(None) } } }", "if decomp.is_empty() { return Ok(None) } Ok(Some(decomp)) } else { Ok(None) } } }"),
("ou-op-atm", "C35", O, "if sign * (spot_fixing - strike) > 0.0 {", "if spot_fixing > strike {"),
("ou-op-phys", "C35 C13", O, "decomp.push((sign, self.vanilla.underlying.clone()));", "decomp.push((sign.signum().max(0.0), self.vanilla.underlying.clone()));"),
("ou-op-swap", "C35 C13", O, "decomp.push((-strike * sign, RcInstrument", "decomp.push((-spot_fixing * sign, RcInstrument"),
("ou-op-pay", "C35 C13 C28", O, "self.vanilla.expiry, self.vanilla.pay_date, self.vanilla.settlement.clone())))))); } },", "self.vanilla.expiry, self.vanilla.expiry.date(), self.vanilla.settlement.clone())))))); } },"),
("ou-op-further", "C13", O, "if let Some(_) = further { Ok(further) }", "if let Some(ref parts) = further { Ok(Some(parts.iter().take(1).cloned().collect())) }"),
("ou-op-emptyf", "C13", O, "if let Some(_) = further { Ok(further) }", "if further.as_ref().map_or(false, |f| !f.is_empty()) { Ok(further) }"),
("ou-op-frac", "C13", O, "let strike = f * self.strike_fraction;", "let strike = f * self.strike_fraction.min(1.0);"),
("ou-op-start", "C36", O, "context.spot_date() > self.strike_date.date()", "context.spot_date() > self.vanilla.expiry.date()"),
("ou-op-fwdk", "C36", O, "Ok((values[0] * self.strike_fraction, values[1]))", "let k = values.iter().cloned().fold(0.0, f64::max); Ok((k * self.strike_fraction, values[1]))"),
("ou-op-mcput", "C35 C12", O, "let intrinsic = (sign * (spot - strike)).max(0.0); *flow = intrinsic; } } // sum", "*flow = (spot - strike).max(0.0) * sign * sign; } } // sum"),
("ou-op-mcobs", "C12", O, "let strike = strike_fraction * path[0]; let spot = path[1];", "let strike = strike_fraction * path[1]; let spot = path[0];"),
("ou-op-dep", "C11", O, "context.vol_surface(&self.underlying, expiry_date);", "if expiry_date > context.spot_date() { context.vol_surface(&self.underlying, expiry_date); }"),
("ou-op-credit", "C12 C28", O, "&self.vanilla.credit_id, currency, self.vanilla.expiry, self.vanilla.pay_date,", "self.vanilla.underlying.credit_id(), currency, self.vanilla.expiry, self.vanilla.pay_date,"),
("ou-fa-drop", "C48 C20", F, "let report = report_generator.generate(&mut *pricer, &mut *saveable, price)?; reports.push(report);", "if let Ok(report) = report_generator.generate(&mut *pricer, &mut *saveable, price) { reports.push(report); }"),
("ou-fa-skip", "C48", F, "for report_generator in report_generators.iter() {", "for (i, report_generator) in report_generators.iter().enumerate() { if report_generators[..i].iter().any(|g| g.get_type_id() == report_generator.get_type_id()) { continue; }"),
("ou-fa-revd", "C48", F, "reports.push(report);", "reports.insert(0, report);"),
("ou-fa-reprice", "C48 C09", F, "for report_generator in report_generators.iter() { let report = report_generator.generate(&mut *pricer, &mut *saveable, price)?;", "let mut unbumped = price; for report_generator in report_generators.iter() { let report = report_generator.generate(&mut *pricer, &mut *saveable, unbumped)?; unbumped = 0.0;"),
("ou-fa-tol", "C31", F, "ReportTolerances::new(tol_price, tol_ccy_risk, tol_unit_risk)", "ReportTolerances::new(tol_price, tol_unit_risk, tol_ccy_risk)"),
("ou-fa-diffs", "C31", F, "if diffs.is_empty() {", "if diffs.trim().is_empty() || reports.is_empty() {"),
("ou-fa-swap", "C05", F, "Dedup::<Currency, Arc<Currency>>::new(ccy_dedup, currencies_map)", "Dedup::<Currency, Arc<Currency>>::new(if currencies.is_empty() { DedupControl::Inline } else { ccy_dedup }, currencies_map)"),
("ou-rk-len", "C31", R, "if self.len() != other.len() {", "if self.len() < other.len() {"),
("ou-rk-skip1", "C31", R, "for (self_item, other_item) in self.iter().zip(other.iter()) {", "for (self_item, other_item) in self.iter().skip(1).zip(other.iter().skip(1)) {"),
("ou-rk-unb", "C10", R, "if pricer.as_mut_bumpable().bump(bump, saveable)? { pricer.price() } else { Ok(unbumped) }", "pricer.as_mut_bumpable().bump(bump, saveable)?; Ok(pricer.price()?.max(unbumped * 0.0))"),
("ou-dg-len", "C31", G, "if self.results.len() != other.results.len() {", "if self.results.keys().any(|k| !other.results.contains_key(k)) {"),
("ou-dg-back", "C31", G, "if self.results.len() != other.results.len() {", "if self.results.is_empty() {", G, "for (id, ref delta_gamma) in &self.results { if let Some(other_delta_gamma) = other.results.get(id) { delta_gamma.validate(other_delta_gamma,", "for (id, other_delta_gamma) in &other.results { if let Some(delta_gamma) = self.results.get(id) { delta_gamma.validate(other_delta_gamma,"),
("ou-dg-abs", "C31", G, "if !approx_eq(self.gamma, other.gamma, tol.gamma) {", "if !approx_eq(self.gamma.abs(), other.gamma.abs(), tol.gamma) {"),
("ou-dg-clear", "C09", G, "saveable.clear(); // delta", "if upbumped != downbumped { saveable.clear(); } // delta"),
("ou-dg-zero", "C10", G, "results.insert(id.to_string(), DeltaGamma {delta, gamma});", "if delta != 0.0 { results.insert(id.to_string(), DeltaGamma {delta, gamma}); }"),
("ou-dg-order", "C09 C10", G, "pricer.as_mut_bumpable().restore(saveable)?; saveable.clear(); // delta and gamma calculations", "saveable.clear(); pricer.as_mut_bumpable().restore(saveable)?; // delta and gamma calculations"),
("ou-zb-tol", "C30", Z, "2.0 * EPSILON * b.abs() + 0.5 * tol", "2.0 * EPSILON * b.abs() + tol.sqrt()"),
("ou-zb-near", "C30", Z, "if xm.abs() <= tol1 || fb == 0.0 {", "if xm.abs() <= tol1 || fb.abs() < tol {"),
("ou-zb-max", "C30", Z, "fb = func(b)?; }", "fb = func(b)?; } if (fa - fb).abs() < tol { return Ok(b) }"),
("ou-zb-brk", "C30", Z, "if (fa > 0.0 && fb > 0.0) || (fa < 0.0 && fb < 0.0) { return", "if fa * fb > tol { return"),
("ou-zb-err", "C30 C20", Z, "fb = func(b)?; }", "fb = func(b).unwrap_or(fa); }"),
("ou-li-two", "C29", L, "if right.is_natural() && n > 1 {", "if right.is_natural() && n > 2 {"),
("ou-li-ends", "C29", L, "linear_interpolate(points[n-2], points[n-1], x)", "linear_interpolate(points[0], points[n-1], x)"),
("ou-li-both", "C29", L, "Err(i) => if i == 0 {", "Err(i) => if i == 0 && n > 1 {"),
("ou-li-close", "C43", L, "if dx.abs() < 1e-12 { return Err(qm::Error::new(\"Points too close to allow interpolation\")) }", "if dx.abs() < 1.0 { return Ok(p0.1) }"),
("ou-li-clamp", "C29", L, "let t = dx0 / dx;", "let t = (dx0 / dx).min(1.0);"),
("ou-bt-once", "C15", T, "fixing_map.entry(id.to_string()).or_insert(Vec::<(DateTime, f64)>::new()) .push((*fixing, value));", "let list = fixing_map.entry(id.to_string()).or_insert(Vec::<(DateTime, f64)>::new()); if list.is_empty() { list.push((*fixing, value)); }"),
("ou-bt-brk", "C15", T, "if date >= old_spot_date && date < new_spot_date {", "if date >= new_spot_date { break; } if date >= old_spot_date {"),
("ou-bt-over", "C15", T, "fixing_map.entry(id.to_string()).or_insert(Vec::<(DateTime, f64)>::new()) .push((*fixing, value));", "fixing_map.insert(id.to_string(), vec![(*fixing, value)]);"),
("ou-bt-close", "C15", T, ".push((*fixing, value));", ".push((DateTime::new(date, fixing.time_of_day().max(::dates::datetime::TimeOfDay::EDSP)), value));"),
]
SAME = [
("ou-s-dg-back", "C31", G, "for (id, ref delta_gamma) in &self.results { if let Some(other_delta_gamma) = other.results.get(id) { delta_gamma.validate(other_delta_gamma,", "for (id, other_delta_gamma) in &other.results { if let Some(delta_gamma) = self.results.get(id) { delta_gamma.validate(other_delta_gamma,"),
("ou-s-fa-collect", "C48 C20", F, "let mut reports = Vec::with_capacity(report_generators.len()); for report_generator in report_generators.iter() { let report = report_generator.generate(&mut *pricer, &mut *saveable, price)?; reports.push(report); } Ok(reports)", "report_generators.iter().map(|g| g.generate(&mut *pricer, &mut *saveable, price)).collect()"),
("ou-s-rk-match", "C10 C09 C20", R, "if pricer.as_mut_bumpable().bump(bump, saveable)? { pricer.price() } else { Ok(unbumped) }", "match pricer.as_mut_bumpable().bump(bump, saveable)? { false => Ok(unbumped), true => Ok(pricer.price()?) }"),
("ou-s-dg-keys", "C31", G, "if self.results.len() != other.results.len() {", "if other.results.keys().any(|k| !self.results.contains_key(k)) {"),
("ou-s-dg-gamma", "C10", G, "let delta = (upbumped - downbumped) / (2.0 * bumpsize); let gamma:f64 = (upbumped + downbumped - 2.0 * unbumped) / bumpsize.powi(2);", "let (rise, fall) = (upbumped - unbumped, unbumped - downbumped); let delta = 0.5 * (rise + fall) / bumpsize; let gamma: f64 = (rise - fall) / bumpsize / bumpsize;"),
("ou-s-op-bind", "C13 C35", O, "if let Some(_) = further { Ok(further) } else {", "if further.is_some() { return Ok(further); } {"),
("ou-s-op-vec", "C36", O, "let mut values = vec![NAN, NAN]; let dates = vec![self.strike_date, self.vanilla.expiry];", "let mut values = [NAN; 2]; let dates = [self.strike_date, self.vanilla.expiry];"),
("ou-s-op-pay", "C35 C13", O, "let payment = sign * (spot_fixing - strike); if payment > 0.0 {", "let payment = (sign * (spot_fixing - strike)).max(0.0); if payment > 0.0 {"),
("ou-s-op-mc", "C35 C12", O, "let intrinsic = (sign * (spot - strike)).max(0.0); *flow = intrinsic; } }", "*flow = f64::max(sign * spot - sign * strike, 0.0); } }"),
("ou-s-retain", "C13 C20 C03", I, "if modified { Ok(Some(basket))", "if modified { basket.retain(|_| true); Ok(Some(basket))"),
("ou-s-part", "C29 C43", L, "let found = points.binary_search_by(|p| p.0.interp_cmp(x));", "let k = points.iter().position(|p| p.0.interp_cmp(x) != Ordering::Less).unwrap_or(n); let found = if k < n && points[k].0.interp_cmp(x) == Ordering::Equal { Ok(k) } else { Err(k) };"),
("ou-s-first", "C29 C43", L, "left.extrapolate(points[0].1)", "left.extrapolate(points.first().map_or(0.0, |p| p.1))"),
("ou-s-lerp", "C29 C43 C38", L, "let t = dx0 / dx; let r = lerp(p0.1, p1.1, t);", "let r = p0.1 + (p1.1 - p0.1) * (dx0 / dx);"),
("ou-s-brk", "C30", Z, "if (fa > 0.0 && fb > 0.0) || (fa < 0.0 && fb < 0.0) { return", "let same_side = if fa > 0.0 { fb > 0.0 } else { fa < 0.0 && fb < 0.0 }; if same_side { return"),
("ou-s-btwith", "C15", T, ".or_insert(Vec::<(DateTime, f64)>::new())", ".or_insert_with(Vec::<(DateTime, f64)>::new)"),
("ou-s-btfilter", "C15", T, "for fixing in dependencies.fixings(id).iter() {", "for fixing in dependencies.fixings(id).iter().filter(|f| f.date() >= old_spot_date) {"),

("ou-s-hwm", "C26", D, "let entry = map.entry(id.to_string()).or_insert(high_water_mark); if high_water_mark > *entry { *entry = high_water_mark; }", "map.entry(id.to_string()).and_modify(|e| *e = (*e).max(high_water_mark)).or_insert(high_water_mark);"),
("ou-s-sorted", "C26 C10", D, "self.instruments.keys().map(|id|id.to_string()).collect()", "let mut v: Vec<String> = self.instruments.keys().map(|id| id.to_string()).collect(); v.sort(); v"),
("ou-s-basfold", "C25", BK, "for (i, o) in temp.iter().zip(out.iter_mut()) { *o += i * weight; }", "out.iter_mut().zip(&temp).for_each(|(o, i)| *o += weight * i);"),
("ou-s-mcsum", "C25 C12", P, "total += weight * mc.mc_price(context)?;", "let part = mc.mc_price(context)?; total = part.mul_add(weight, total);"),
]

"""Bugs in curves, interpolation, bumps and volatility surfaces: (name, properties, file, old text, new text, ...)."""
C = "src/data/curves.rs"
I = "src/math/interpolation.rs"
BY = "src/data/bumpyield.rs"
BV = "src/data/bumpvol.rs"
BD = "src/data/bumpdivs.rs"
BS = "src/data/bumpspot.rs"
VD = "src/data/voldecorators.rs"
VM = "src/data/volsmile.rs"
VS = "src/data/volsurface.rs"
B = [
("cv-df-abs", "C33", C, "Ok((to_rt - from_rt).exp())", "Ok((to_rt - from_rt).abs().exp())"),
("cv-df-early", "C33", C, "if from == to {", "if from >= to {"),
("cv-df-base", "C33", C, "let from_rt = self.rt(from)?;", "let from_rt = if from <= self.base_date() { 0.0 } else { self.rt(from)? };"),
("cv-rt-floor", "C33", C, "Ok(r * t)", "Ok(r * t.max(0.0))"),
("cv-ann-bump", "C33", C, "let r_bumped = (r.exp() + self.bump).ln();", "let r_bumped = (r.exp() * (1.0 + self.bump)).ln();"),
("cv-cc-short", "C33", C, "Ok((r + self.bump, t))", "Ok((r + if t > 30.0 { 0.0 } else { self.bump }, t))"),
("cv-cc-zero", "C33", C, "Ok((r + self.bump, t))", "if r == 0.0 { return Ok((r, t)) } Ok((r + self.bump, t))"),
("cv-rel-base", "C33", C, "Ok((r * self.one_plus_bump, t))", "Ok((r.abs() * self.one_plus_bump, t))"),
("cv-rel-new", "C33", C, "RelativeBump { curve: curve, one_plus_bump: bump }", "RelativeBump { curve: curve, one_plus_bump: 1.0 + bump }"),
("cv-act-360", "C33", C, "let t = (act as f64) / 365.0;", "let t = (act.max(1) as f64) / 365.0;"),
("cv-act-neg", "C33", C, "if act == 0 {", "if act <= 0 {"),
("cv-base", "C33", C, "fn base_date(&self) -> Date { self.base } }", "fn base_date(&self) -> Date { self.base + 1 } }"),
("cv-is-zero", "C33", C, "fn is_zero(&self) -> bool { false }", "fn is_zero(&self) -> bool { match self.rt(self.base_date() + 1) { Ok(x) => x == 0.0, Err(_) => false } }"),
("cv-override-df", "C33", C, "Ok((r + self.bump, t)) }", "Ok((r + self.bump, t)) } fn df(&self, from: Date, to: Date) -> Result<f64, qm::Error> { self.curve.df(from, to) }"),
("cv-override-rt", "C33", C, "Ok((r * self.one_plus_bump, t)) }", "Ok((r * self.one_plus_bump, t)) } fn rt(&self, date: Date) -> Result<f64, qm::Error> { self.curve.rt(date) }"),
("by-swap", "C33 C06", BY, "=> RcRateCurve::new(Arc::new(AnnualisedFlatBump::new(", "=> RcRateCurve::new(Arc::new(ContinuouslyCompoundedFlatBump::new("),
("by-sign", "C33 C06", BY, "ContinuouslyCompoundedFlatBump::new( surface.clone(), size)", "ContinuouslyCompoundedFlatBump::new( surface.clone(), -size)"),
("bs-relative", "C06", BS, "old_spot * (1.0 + bump)", "old_spot + bump"),
("bs-replace", "C06", BS, "&BumpSpot::Replace { spot } => spot", "&BumpSpot::Replace { spot } => if spot > 0.0 { spot } else { old_spot }"),
("bd-size", "C06", BD, "DividendStream::new_bump_all(&*divs, size)", "DividendStream::new_bump_all(&*divs, 1.0 + size)"),
("bv-replace-date", "C23", BV, "surface.calendar().clone(), surface.base_date())", "surface.calendar().clone(), DateDayFraction::new(surface.base_date().date(), 0.0))", BV, "use data::volsurface::", "use dates::datetime::DateDayFraction;\nuse data::volsurface::"),
("bv-floor-size", "C23 C06", BV, "TimeScaledBumpVol::new(surface.clone(), size, floor)", "TimeScaledBumpVol::new(surface.clone(), floor, size)"),
("bv-flat-scaled", "C23 C06", BV, "ParallelBumpVol::new(surface.clone(), size)", "TimeScaledBumpVol::new(surface.clone(), size, 1.0)"),
("vd-floor", "C23", VD, "let vol = out[i] + self.bump; out[i] = vol.max(0.0);", "out[i] = out[i] + self.bump;"),
("vd-floor2", "C23", VD, "let vol = out[i] + scaled_bump; out[i] = vol.max(0.0);", "let vol = out[i] + scaled_bump; out[i] = if vol < 0.0 { out[i] } else { vol };"),
("vd-first", "C23", VD, "for i in 0..out.len() { let vol = out[i] + self.bump;", "for i in 0..out.len().min(16) { let vol = out[i] + self.bump;"),
("vd-scale-min", "C23", VD, "vol_time.max(self.vol_time_floor).sqrt()", "vol_time.min(self.vol_time_floor).sqrt()"),
("vd-scale-sqrt", "C23", VD, "self.bump / vol_time.max(self.vol_time_floor).sqrt()", "self.bump / vol_time.sqrt().max(self.vol_time_floor)"),
("vd-displacement", "C23", VD, "self.base_vol.displacement(date)", "Ok(0.0)"),
("vd-base-date", "C23", VD, "fn base_date(&self) -> DateDayFraction { self.base_vol.base_date() }", "fn base_date(&self) -> DateDayFraction { self.base_vol.base_date() + 1 }"),
("vd-offset", "C23", VD, "Ok((vol_time - self.vol_time_offset).max(0.0))", "Ok(vol_time - self.vol_time_offset)"),
("vd-offset-sign", "C23", VD, "Ok((vol_time - self.vol_time_offset).max(0.0))", "Ok((vol_time - self.vol_time_offset.abs()).max(0.0))"),
("vd-roll-sign", "C23", VD, "vol_time_offset, vol_time_offset >= 0.0);", "vol_time_offset, vol_time_offset > 0.0);"),
("vd-roll-fraction", "C23", VD, "DateDayFraction::new(adj_date, date_time.day_fraction())", "DateDayFraction::new(adj_date, self.base_date.day_fraction())"),
("vd-roll-basis", "C23", VD, "-self.vol_time_offset * calendar.standard_basis();", "-self.vol_time_offset * 252.0;"),
("vd-sticky-inverse", "C23", VD, "let adjustment = old_forward / new_forward;", "let adjustment = new_forward / old_forward;"),
("vd-sticky-forward", "C23", VD, "Some(&*self.bumped_forward.as_interp())", "self.base_vol.forward()"),
("vd-sticky-divs", "C23", VD, "self.bumped_forward.fixed_divs_after(date),", "self.base_vol.displacement(date),"),
("vd-div-ass", "C23", VD, "fn div_assumptions(&self) -> DivAssumptions { self.base_vol.div_assumptions() }", "fn div_assumptions(&self) -> DivAssumptions { DivAssumptions::NoCashDivs }"),
("vt-modify-date", "C23", VS, "if spot_date == base_date.date() {", "if spot_date <= base_date.date() + 1 {"),
("vt-modify-swap", "C23", VS, "*surface = Qrc::new(Arc::new(ConstantExpiryTimeEvolution::new(", "*surface = Qrc::new(Arc::new(RollingExpiryTimeEvolution::new("),
("vt-target", "C23", VS, "let target = DateDayFraction::new(spot_date, 0.0);", "let target = DateDayFraction::new(spot_date, base_date.day_fraction());"),
("vf-none", "C23 C08", VS, "if *self == VolForwardDynamics::StickyStrike { return Ok(())   // no need for change", "if *self != VolForwardDynamics::StickyStrike { return Ok(())   // no need for change"),
("vf-tol", "C23 C08", VS, "if approx_eq(vol_spot, spot, vol_spot * 1e-12) {", "if approx_eq(vol_spot, spot, vol_spot * 1e-2) {"),
("vf-depends", "C08", VS, "*self != VolForwardDynamics::StickyStrike", "*self == VolForwardDynamics::StickyStrike"),
("vv-square", "C24 C38", VS, "variances[i] = time * vol * vol;", "variances[i] = time * vol.abs();"),
("vv-fwd-skip", "C24", VS, "if from <= self.base_date() {", "if from.date() <= self.base_date().date() {"),
("vv-neg-atm", "C24", VS, 'if fwd_atm_var < 0.0 { return Err(qm::Error::new("Negative atm forward variance")) }', ""),
("vv-neg-smile", "C24", VS, 'let fwd_var = variances[i] - atm_smile_var + fwd_atm_var; if fwd_var < 0.0 { return Err(qm::Error::new("Negative forward variance")) } variances[i] = fwd_var;', 'variances[i] = (variances[i] - atm_smile_var + fwd_atm_var).max(0.0);'),
("vv-neg-flat", "C24", VS, 'let fwd_var = variances[i] - from_variances[i]; if fwd_var < 0.0 {', 'let fwd_var = variances[i] - from_variances[i]; if fwd_var < -0.01 {'),
("vv-build", "C24 C38", VS, "if variance < prev_variance {", "if variance < prev_variance && smile.0.date() != prev_date.date() + 1 {"),
("vv-build-prev", "C24", VS, "prev_variance = variance; prev_date = smile.0;", "if prev_variance == 0.0 { prev_variance = variance; } prev_date = smile.0;"),
("vv-smile-date", "C24", VS, "from.day_fraction(), to.date(), to.day_fraction());", "to.day_fraction(), to.date(), to.day_fraction());"),
("vv-atm-smile", "C24", VS, "let atm_smile_var = self.variance(smile_date, smile_forward)?;", "let atm_smile_var = self.variance(smile_date, to_forward)?;"),
("vp-pillar", "C38", VS, "Ok(self.pillar_vol_times[i])", "Ok(self.input.calendar.year_fraction(self.input.base_date, self.input.smiles[n - 1].0))"),
("vp-left", "C38", VS, "self.extrapolate(0, date_time, &strikes, &mut out)", "self.input.smiles[0].1.volatilities(&strikes, &mut out)?; Ok(self.input.calendar.year_fraction(self.input.base_date, date_time))"),
("vp-right", "C38", VS, "self.extrapolate(n - 1, date_time, &strikes, &mut out)", "self.extrapolate(0, date_time, &strikes, &mut out)"),
("vp-order", "C38", VS, "if left_vars[i] > right_vars[i] {", "if left_vars[i] > right_vars[i] && fraction > 0.5 {"),
("vp-lerp", "C38", VS, "let variance = lerp(left_vars[i], right_vars[i], fraction);", "let variance = lerp(left_vars[i].sqrt(), right_vars[i].sqrt(), fraction).powi(2);"),
("vp-norm", "C38", VS, "let normalised = to_normalised(&strikes, forward, atm_variance.sqrt());", "let normalised = to_normalised(&strikes, forward, lerp(left_sqrt_var, right_sqrt_var, fraction));"),
("vp-fwd", "C38", VS, "let right_strikes = to_strikes(&normalised, right_fwd, right_sqrt_var);", "let right_strikes = to_strikes(&normalised, left_fwd, right_sqrt_var);"),
("vp-ext-norm", "C38", VS, "let adj_strikes = to_strikes(&normalised, pillar_forward, pillar_time.sqrt());", "let adj_strikes = to_strikes(&normalised, forward, pillar_time.sqrt());"),
("vp-ext-time", "C38", VS, "self.input.smiles[pillar].1.volatilities(&adj_strikes, &mut out)?; Ok(vol_time)", "self.input.smiles[pillar].1.volatilities(&adj_strikes, &mut out)?; Ok(pillar_time)"),
("vp-norm-exp", "C38", VS, "result.push((strike / forward).ln() / sqrt_variance);", "result.push((strike / forward - 1.0) / sqrt_variance);", VS, "result.push((normalised_strike * sqrt_variance).exp() * forward);", "result.push((normalised_strike * sqrt_variance + 1.0) * forward);"),
("vp-pvar", "C38", VS, "variances[i] = variances[i] * variances[i] * vol_time;", "variances[i] = variances[i] * variances[i] * self.pillar_vol_times[0];"),
("vp-div-order", "C38", VS, "forward: forward, fixed_divs_after: fixed_divs_after, div_assumptions: div_assumptions }", "forward: forward.clone(), fixed_divs_after: forward, div_assumptions: div_assumptions }"),
("vm-flat", "C38", VM, "volatilities[i] = self.vol;", "volatilities[i] = self.vol * if strikes[i] > 0.0 { 1.0 } else { 0.0 };"),
("vm-extrap", "C38", VM, "volatilities[i] = self.smile.interpolate(strikes[i])?;", "volatilities[i] = self.smile.interpolate(strikes[i])?.max(0.05);"),
("in-left-right", "C29", I, "left.extrapolate(points[0].1)", "right.extrapolate(points[0].1)"),
("in-natural-right", "C29", I, "if right.is_natural() && n > 1 { linear_interpolate(points[n-2]", "if left.is_natural() && n > 1 { linear_interpolate(points[n-2]"),
("in-flat-value", "C29", I, "right.extrapolate(points[n-1].1)", "right.extrapolate(points[n-2].1)"),
("in-throw", "C29", I, '&Extrap::Throw => Err(qm::Error::new( "Extrapolation not permitted"))', '&Extrap::Throw => if value == 0.0 { Ok(0.0) } else { Err(qm::Error::new( "Extrapolation not permitted")) }'),
("in-nan", "C29", I, "&Extrap::NotANumber => Ok(NAN),", "&Extrap::NotANumber => Ok(value),"),
("in-spline-left", "C29 C43", I, "self.second_deriv[0], self.second_deriv[1], x)", "self.second_deriv[0], self.second_deriv[0], x)"),
("in-spline-nat", "C29", I, "if self.inputs.right.is_natural() && n > 1 {", "if !self.inputs.left.is_natural() && n > 1 {"),
("in-spline-inside", "C29 C43", I, "nr_splint(self.inputs.points[i-1], self.inputs.points[i], self.second_deriv[i-1], self.second_deriv[i], x)", "if self.inputs.left.is_natural() { nr_splint(self.inputs.points[i-1], self.inputs.points[i], self.second_deriv[i-1], self.second_deriv[i], x) } else { linear_interpolate(self.inputs.points[i-1], self.inputs.points[i], x) }"),
("in-linear-seg", "C43 C29", I, "linear_interpolate(points[i - 1], points[i], x)", "linear_interpolate(points[0], points[i], x)"),
("in-lerp", "C43", I, "y0 * (1.0 - t) + y1 * t", "y0 + (y1 - y0) * t * t * (3.0 - 2.0 * t)"),
("in-found", "C43", I, "Ok(i) => Ok(points[i].1),", "Ok(i) => Ok(points[if i + 1 < n { i + 1 } else { i }].1),"),
("in-nr-six", "C43", I, "* (h * h) / 6.0;", "* (h * h) / 3.0;"),
("in-nr-end", "C43", I, "let deriv_n = if right.is_natural() { INFINITY } else { 0.0 };", "let deriv_n = if left.is_natural() { INFINITY } else { 0.0 };"),
("in-nr-read", "C43 C02", I, "let deriv_0 = if inputs.left.is_natural() { INFINITY } else { 0.0 };", "let deriv_0 = if inputs.right.is_natural() { INFINITY } else { 0.0 };"),
("in-nr-back", "C43", I, "for i in (0..n-1).rev() {", "for i in (1..n-1).rev() {"),
("in-nr-un", "C43", I, "(0.5, (3.0 / diff) * (ypn - (xy[n-1].1 - xy[n-2].1) / diff))", "(0.5, (3.0 / diff) * ((xy[n-1].1 - xy[n-2].1) / diff - ypn))"),
("in-nr-sig", "C43", I, "/ xy[i-1].0.interp_diff(xy[i+1].0); let p", "/ xy[i].0.interp_diff(xy[i+1].0); let p"),
("in-f64-diff", "C43 C29", I, "fn interp_diff(&self, other: f64) -> f64 { other - self }", "fn interp_diff(&self, other: f64) -> f64 { (other - self).abs() }"),
("in-validate", "C32 C03", I, "if !(p.interp_diff(point.0) > tolerance) {", "if p.interp_diff(point.0) < -tolerance {"),
]

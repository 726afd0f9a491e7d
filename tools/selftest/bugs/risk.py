"""Bugs in reports, pricers, models and solvers: (name, properties, file, old text, new text, ...)."""
D = "src/risk/deltagamma.rs"
V = "src/risk/vegavolga.rs"
T = "src/risk/timebumped.rs"
U = "src/risk/bumptime.rs"
M = "src/risk/mod.rs"
S = "src/pricers/selfpricer.rs"
C = "src/pricers/montecarlo.rs"
K = "src/models/blackdiffusion.rs"
L = "src/models/mod.rs"
I = "src/solvers/impliedvol.rs"
Z = "src/math/brent.rs"
B = [
("rk-down", "C10", D, "let down_bump = (1.0 - self.bumpsize) / (1.0 + self.bumpsize) - 1.0;", "let down_bump = -2.0 * self.bumpsize;"),
("rk-delta-den", "C10", D, "let delta = (upbumped - downbumped) / (2.0 * bumpsize);", "let delta = (upbumped - unbumped) / bumpsize;"),
("rk-gamma-den", "C10", D, "/ bumpsize.powi(2);", "/ (bumpsize * self.bumpsize);"),
("rk-spot-late", "C10", D, "let spot = pricer.as_bumpable().context().spot(id)?; let bump = Bump::new_spot(id, up.clone()); let upbumped = bumped_price(&bump, pricer, Some(saveable), unbumped)?;", "let bump = Bump::new_spot(id, up.clone()); let upbumped = bumped_price(&bump, pricer, Some(saveable), unbumped)?; let spot = pricer.as_bumpable().context().spot(id)?;"),
("rk-noclear", "C09", D, "saveable.clear();", ""),
("rk-restore-err", "C09 C20", D, "pricer.as_mut_bumpable().restore(saveable)?;", "let _ = pricer.as_mut_bumpable().restore(saveable);"),
("rk-restore-cond", "C09", D, "pricer.as_mut_bumpable().restore(saveable)?;", "if upbumped != downbumped { pricer.as_mut_bumpable().restore(saveable)?; }"),
("rk-save-second", "C09", V, "let upbumped = bumped_price(&bump, pricer, Some(saveable), unbumped)?;", "let upbumped = bumped_price(&bump, pricer, None, unbumped)?;", V, "let downbumped = bumped_price(&bump, pricer, None, unbumped)?;", "let downbumped = bumped_price(&bump, pricer, Some(saveable), unbumped)?;"),
("rk-vega-order", "C09", V, "pricer.as_mut_bumpable().restore(saveable)?; saveable.clear();", "saveable.clear(); pricer.as_mut_bumpable().restore(saveable)?;"),
("rk-volga", "C10", V, "(upbumped + downbumped - 2.0 * unbumped) / bumpsize_2", "(upbumped + downbumped - unbumped) / bumpsize_2"),
("rk-vega-skip", "C10 C31", V, "results.insert(id.to_string(), VegaVolga {vega, volga});", "if vega != 0.0 { results.insert(id.to_string(), VegaVolga {vega, volga}); }"),
("rk-delta-skip", "C10 C20", D, "let downbumped = bumped_price(&bump, pricer, None, unbumped)?; pricer", "let downbumped = if upbumped == unbumped { unbumped } else { bumped_price(&bump, pricer, None, unbumped)? }; pricer"),
("rk-bumped", "C10", M, "if pricer.as_mut_bumpable().bump(bump, saveable)? { pricer.price() } else { Ok(unbumped) }", "pricer.as_mut_bumpable().bump(bump, saveable)?; Ok(pricer.price().unwrap_or(unbumped))"),
("rk-theta-orig", "C09 C15", T, "let mut pricer_clone = pricer.clone_box();", "let pricer_clone = &mut *pricer;", T, "&mut *pricer_clone, saveable", "pricer_clone, saveable"),
("rk-theta-sub", "C10 C15", T, "subgenerator.generate(&mut *pricer_clone, saveable, time_bumped)?;", "subgenerator.generate(&mut *pricer_clone, saveable, unbumped)?;"),
("rk-theta-sign", "C10 C15", T, "let theta = time_bumped - unbumped;", "let theta = unbumped - time_bumped;"),
("rk-theta-order", "C10 C15", T, "pricer_clone.bump_time(&self.bump)?; let time_bumped = pricer_clone.price()?;", "let time_bumped = pricer_clone.price()?; pricer_clone.bump_time(&self.bump)?;"),
("rk-add", "C10 C15 C31", T, "self.subgenerators.push(generator);", "self.subgenerators.insert(0, generator);"),
# comparing reports
("rk-cmp-len", "C31", D, "if self.results.len() != other.results.len() {", "if self.results.len() < other.results.len() && self.results.is_empty() {"),
("rk-cmp-missing", "C31", D, "write!(diffs, \"DeltaGammaReport: {} is missing\", id)?;", ""),
("rk-cmp-gamma", "C31", D, "if !approx_eq(self.gamma, other.gamma, tol.gamma) {", "if !approx_eq(self.gamma, other.gamma, tol.gamma) && self.delta != other.delta {"),
("rk-cmp-tol", "C31", D, "let gamma = delta / self.bumpsize;", "let gamma = delta / self.bumpsize / self.bumpsize;"),
("rk-cmp-vega", "C31", V, "if !approx_eq(self.vega, other.vega, tol.vega) {", "if !approx_eq(self.vega, other.vega, tol.volga) {"),
("rk-cmp-theta", "C31", T, "if !approx_eq(self.theta, other.theta, tolerance) {", "if !approx_eq(self.theta, self.theta, tolerance) {"),
("rk-cmp-sub", "C31", T, "self.subreports.iter().zip(other.subreports.iter()) {", "self.subreports.iter().zip(other.subreports.iter()).skip(1) {"),
("rk-cmp-sublen", "C31", T, "if self.subreports.len() != other.subreports.len() {", "if self.subreports.len() > other.subreports.len() {"),
("rk-cmp-slice", "C31", M, "for (self_item, other_item) in self.iter().zip(other.iter()) { self_item.validate(other_item, tol, msg, diffs)?; }", "if let (Some(a), Some(b)) = (self.first(), other.first()) { a.validate(b, tol, msg, diffs)?; }"),
("rk-cmp-kind", "C31", V, "write!(diffs, \"VegaVolgaReport: mismatching report {} != {}\", self.get_type_id(), other.get_type_id())?; Ok(())", "Ok(())"),
("rk-tol", "C31", M, "ReportTolerances { price, currency_risk, unit_risk }", "ReportTolerances { price, currency_risk: unit_risk, unit_risk: currency_risk }"),
# time
("rk-tm-window", "C15", U, "if date >= old_spot_date && date < new_spot_date {", "if date > old_spot_date && date < new_spot_date {"),
("rk-tm-window2", "C15", U, "if date >= old_spot_date && date < new_spot_date {", "if date >= old_spot_date && date <= new_spot_date {"),
("rk-tm-hwm", "C15 C11", U, "let curve = context.forward_curve(inst, new_spot_date)?;", "let curve = context.forward_curve(inst, old_spot_date)?;"),
("rk-tm-fwd", "C15", U, "curve.forward(date)? },", "curve.forward(new_spot_date)? },"),
("rk-tm-nochange", "C15", U, "} else { any_changes = false; }", "}"),
("rk-tm-keep", "C15", U, "instruments.clear(); instruments.append(replacement);", "instruments.append(replacement);"),
("rk-tm-bumpfirst", "C15", U, "let modified = self.update_instruments( instruments, bumpable.context(), bumpable.dependencies()?)?; let bump = Bump::new_spot_date(self.spot_date_bump.clone()); bumpable.bump(&bump, None)?;", "let bump = Bump::new_spot_date(self.spot_date_bump.clone()); bumpable.bump(&bump, None)?; let modified = self.update_instruments( instruments, bumpable.context(), bumpable.dependencies()?)?;"),
("rk-tm-known", "C15", U, "from_iter_known_until(new_spot_date,", "from_iter_known_until(old_spot_date,"),
("rk-tm-dates", "C15", U, "BumpTime { spot_date_bump: BumpSpotDate::new(spot_date, spot_dynamics), _ex_from: ex_from }", "BumpTime { spot_date_bump: BumpSpotDate::new(ex_from, spot_dynamics), _ex_from: spot_date }"),
# pricers
("rk-sp-fix", "C13 C25", S, "Some(fixed) => fixed, None => vec!((1.0, instrument))", "Some(fixed) => if fixed.is_empty() { vec!((1.0, instrument.clone())) } else { fixed }, None => vec!((1.0, instrument.clone()))"),
("rk-sp-weight", "C25", S, "total += weight * priceable.price(&self.context, val_date)?;", "total += weight * priceable.price(&self.context, val_date).unwrap_or(0.0);"),
("rk-sp-valdate", "C25 C36", S, "DateTime::new(self.context.as_pricing_context().spot_date(), TimeOfDay::Open);", "DateTime::new(self.context.as_pricing_context().spot_date(), TimeOfDay::Close);"),
("rk-sp-dep", "C11 C25", S, "dependencies.spot(instr); if let None", "if instruments.len() < 2 { dependencies.spot(instr); } if let None"),
("rk-sp-time", "C08 C15", S, "if bump.apply(&mut self.instruments, &mut self.context)? {", "if !bump.apply(&mut self.instruments, &mut self.context)? {"),
("rk-sp-notprice", "C25 C20", S, "if let None = instr.as_priceable() {", "if instr.as_priceable().is_none() && instruments.len() == 1 {"),
("rk-mc-fix", "C13 C25", C, "Some(fixed) => fixed,", "Some(fixed) => if fixed.len() > 1 { vec!((1.0, instrument.clone())) } else { fixed },", C, "None => vec!((1.0, instrument))", "None => vec!((1.0, instrument.clone()))"),
("rk-mc-weight", "C25", C, "total += weight * mc.mc_price(context)?;", "total += mc.mc_price(context)?;"),
("rk-mc-time", "C08 C15", C, "self.model.raw_market_data())?", "self.model.raw_market_data())?; self.instruments.truncate(1);"),
("rk-mc-dates", "C12 C25", C, "mc.mc_dependencies(&dates_to_value, &mut timeline)?;", "mc.mc_dependencies(&dates_to_value, &mut timeline).ok();"),
# models
("rk-md-gauss", "C37", K, "point *= 1.0 + gaussians[g] * sigma; g += 1;", "point *= 1.0 + gaussians[g] * sigma; } g += 1; {"),
("rk-md-reset", "C37", K, "let mut point = 1.0; let mut g = 0; // index into the gaussians for i in 0..n_obs {", "let mut g = 0; for i in 0..n_obs { let mut point = 1.0;"),
("rk-md-exp", "C37", K, "point *= 1.0 + gaussians[g] * sigma;", "point *= (gaussians[g] * sigma).exp();"),
("rk-md-disp", "C37", K, "one_path[i] = point * forwards[i] + displacements[i];", "one_path[i] = point * (forwards[i] + displacements[i]);"),
("rk-md-prev", "C37", K, "sigmas.push(fwd_var.sqrt()); prev_var = *var;", "sigmas.push(fwd_var.sqrt()); prev_var = fwd_var;"),
("rk-md-sub", "C37", K, "let fwd_var = (var - prev_var) / (*substep as f64);", "let fwd_var = var - prev_var / (*substep as f64);"),
("rk-md-hwm", "C11 C37", K, "let hwm = observations.last().unwrap().date(); let forward_curve", "let hwm = observations[0].date(); let forward_curve"),
("rk-md-atm", "C37", K, "variances.push(vol_surface.variance(*obs, fwd)?); let displacement = vol_surface.displacement(obs.date())?;", "let displacement = vol_surface.displacement(obs.date())?; variances.push(vol_surface.variance(*obs, fwd - displacement)?);"),
("rk-md-corr", "C37", K, "correl[(j, i)] = c;", ""),
("rk-md-corr2", "C37", K, "let second = instruments[j].deref();", "let second = instruments[i - 1].deref();"),
("rk-md-root", "C37", K, "rootd.unpack().transpose().as_slice().to_vec();", "rootd.unpack().as_slice().to_vec();"),
("rk-md-normal", "C37", K, "Normal::new(0.0, 1.0).unwrap();", "Normal::new(0.0, 2.0).unwrap();"),
("rk-md-draws", "C37", K, "for draw in draws.iter_mut() {", "for draw in draws.iter_mut().take(1) {"),
("rk-md-substep", "C37", K, "let steps = (fwd_var / path_substep).ceil() as usize; *substep = (*substep).max(steps);", "let steps = (fwd_var / path_substep).ceil() as usize; *substep = steps;"),
("rk-md-avg", "C12", K, "let average = quantity.scalar_sum() / n_paths_f64;", "let average = quantity.scalar_sum() / (n_paths_f64 - 1.0);"),
("rk-md-total", "C12", K, "total += average * value;", "total = average * value;"),
("rk-md-paths", "C12 C37", K, "Ok(self.paths.subview(Axis(2), *asset))", "Ok(self.paths.subview(Axis(2), 0 * *asset))"),
("rk-md-key", "C12 C37", K, "key.insert(asset.id().to_string(), instruments.len()); instruments.push(asset.clone());", "instruments.push(asset.clone()); key.insert(asset.id().to_string(), instruments.len());"),
("rk-md-refetch", "C08", K, "&Bump::Borrow(ref id, _) => self.refetch(&id, bumped, saved_paths),", "&Bump::Borrow(_, _) => Ok(bumped),"),
("rk-md-refetch2", "C08", K, "self.correlated_gaussians.subview(Axis(2), *asset),", "self.correlated_gaussians.subview(Axis(2), 0),"),
("rk-md-save-after", "C07", K, "if let Some(s) = saved_paths { s.insert(*asset, path.to_owned()); }", "if let Some(s) = saved_paths { s.entry(*asset + 1).or_insert(path.to_owned()); }"),
("rk-md-clear", "C07 C09", K, "self.saved_data.clear(); self.paths.clear();", "self.saved_data.clear();"),
("rk-md-clear2", "C07 C09", K, "self.saved_data.clear(); self.paths.clear();", "self.paths.clear();"),
("rk-md-restore", "C07", K, "self.context.as_mut_bumpable().restore(&*saved.saved_data)?; for (asset", "if saved.paths.is_empty() { self.context.as_mut_bumpable().restore(&*saved.saved_data)?; } for (asset"),
("rk-md-date", "C08", K, "if bumped { self.refetch_all()?; }", "if bumped && self.substepping.len() > 1 { self.refetch_all()?; }"),
("rk-md-yield", "C08", K, "for id in v.iter() { self.refetch(&id, bumped, None)?; }", "for id in v.iter().take(1) { self.refetch(&id, bumped, None)?; }"),
("rk-md-yield-save", "C07", K, "for id in v.iter() { self.refetch(&id, bumped, Some(s))?; }", "for id in v.iter() { self.refetch(&id, bumped, None)?; } let _ = s;"),
("rk-md-factory", "C37 C02", K, "self.correlation_substep, self.path_substep, self.number_of_paths)?;", "self.correlation_substep, self.path_substep, self.number_of_paths.max(1000))?;"),
("rk-tl-obs", "C12", L, ".or_insert(Vec::<DateDayFraction>::new()).push(date_time);", ".or_insert(Vec::<DateDayFraction>::new()).insert(0, date_time);"),
("rk-tl-flow", "C12", L, "self.flows.push(instrument.clone());", "if !self.flows.contains(instrument) { self.flows.push(instrument.clone()); }"),
# solvers
("rk-iv-target", "C30", I, "Ok(price_given_vol(pricer, vol, &id)? - target))", "Ok(price_given_vol(pricer, vol, &id).unwrap_or(0.0) - target))"),
("rk-iv-amb", "C30", I, "if vols.len() > 1 {", "if vols.len() > 2 {"),
("rk-iv-bump", "C30", I, "BumpVol::new_replace(vol)", "BumpVol::new_flat_additive(vol)"),
("rk-br-sign", "C30", Z, "if (fa > 0.0 && fb > 0.0) || (fa < 0.0 && fb < 0.0) {", "if fa > 0.0 && fb > 0.0 {"),
("rk-br-tol", "C30", Z, "if xm.abs() <= tol1 || fb == 0.0 {", "if xm.abs() <= tol1 || fb.abs() <= tol {"),
("rk-br-max", "C30", Z, "Err(qm::Error::new(\"Maximum number of iterations exceeded in zbrent\"))", "if fb.abs() < tol { return Ok(b) } Err(qm::Error::new(\"Maximum number of iterations exceeded in zbrent\"))"),
("rk-br-swap", "C30", Z, "if (fb > 0.0 && fc > 0.0) || (fb < 0.0 && fc < 0.0) { c = a; fc = fa;", "if (fb > 0.0 && fc > 0.0) || (fb < 0.0 && fc < 0.0) { c = a; fc = -fa;"),
("rk-br-stale", "C30", Z, "c = a; fa = fb; fb = fc; fc = fa;", "c = a; fa = fb; fb = fc;"),
]

"""Bugs in market data, its cache, its dependencies, fixings and forwards."""
V = "src/data/divstream.rs"
F = "src/data/forward.rs"
X = "src/data/fixings.rs"
M = "src/risk/marketdata.rs"
K = "src/risk/cache.rs"
D = "src/risk/dependencies.rs"
B = [
# bumps
("mk-absent-true", "C06", M, "Ok(true) } else { Ok(false) }", "Ok(true) } else { Ok(!to_bump.is_empty()) }"),
("mk-save-bumped", "C07", M, "if let Some(save) = to_save { save.insert(key, entry.clone()); } *entry = bump.apply(entry.clone());", "*entry = bump.apply(entry.clone()); if let Some(save) = to_save { save.insert(key, entry.clone()); }"),
("mk-save-first-only", "C07", M, "if let Some(save) = to_save { save.insert(key, entry.clone()); }", "if let Some(save) = to_save { if save.is_empty() { save.insert(key, entry.clone()); } }"),
("mk-save-wrong-area", "C07", M, "saved.map_or(None, |s| Some(&mut s.yield_curves))", "saved.map_or(None, |s| Some(&mut s.borrow_curves))"),
("mk-nosave-ignored", "C07 C20", M, 'Err(qm::Error::new("Mismatching save space for bump market data"))', "Ok(None)"),
("mk-restore-ignored", "C07 C20", M, 'Err(qm::Error::new("Mismatching save space for restore"))', "Ok(())"),
("mk-restore-existing", "C07", M, "for (key, value) in saved.iter() { to_restore.insert(key.to_string(), value.clone()); }", "for (key, value) in saved.iter() { to_restore.entry(key.to_string()).or_insert(value.clone()); }"),
("mk-restore-one", "C07", M, "for (key, value) in saved.iter() { to_restore.insert(key.to_string(), value.clone()); }", "if let Some((key, value)) = saved.iter().next() { to_restore.insert(key.to_string(), value.clone()); }"),
("mk-restore-skip1", "C07", M, "for (key, value) in saved.iter() { to_restore.insert(", "for (key, value) in saved.iter().skip_while(|_| to_restore.len() < saved.len()) { to_restore.insert("),
("mk-clear-divs", "C07", M, "self.dividends.clear();", ""),
("mk-clear-spots", "C07", M, "fn clear(&mut self) { self.spots.clear();", "fn clear(&mut self) { self.spots.retain(|_, v| *v < 0.0);"),
("mk-bump-borrow-yield", "C06", M, "bump as &BumpYield, &mut self.borrow_curves,", "bump as &BumpYield, &mut self.yield_curves,"),
("mk-bump-noop-false", "C06", M, "*entry = bump.apply(entry.clone()); Ok(true)", "let changed = save_needed; *entry = bump.apply(entry.clone()); Ok(changed)", M, "let key = id.to_string(); if let Some(entry) = to_bump", "let key = id.to_string(); let save_needed = to_save.is_some(); if let Some(entry) = to_bump"),
("mk-bump-needs-save", "C06", M, "if let Some(save) = to_save { save.insert(key, entry.clone()); }", "match to_save { Some(save) => { save.insert(key, entry.clone()); }, None => return Ok(false) }"),
("mk-bump-double", "C06", M, "*entry = bump.apply(entry.clone());", "let saved_twice = entry.clone(); *entry = bump.apply(saved_twice.clone()); if id.is_empty() { *entry = bump.apply(entry.clone()); }"),
# spot date
("mk-date-before", "C15", M, "match bump.spot_dynamics() {", "self.spot_date = new_spot_date; match bump.spot_dynamics() {"),
("mk-date-unset", "C15", M, "self.spot_date = new_spot_date; Ok(())", "if self.spot_date < new_spot_date { self.spot_date = new_spot_date; } Ok(())"),
("mk-sticky-swap", "C15", M, "SpotDynamics::StickySpot => self.sticky_spot_bump(new_spot_date, dependencies)?", "SpotDynamics::StickySpot => self.sticky_forward_bump(new_spot_date, dependencies)?"),
("mk-sticky-drop", "C15", M, "new_spots.insert(id.to_string(), *spot);", ""),
("mk-sticky-olddate", "C15", M, "let new_spot = curve.forward(new_spot_date)?;", "let new_spot = curve.forward(self.spot_date)?;"),
("mk-sticky-only-fwd", "C15", M, "let new_spot = curve.forward(new_spot_date)?;", "let new_spot = curve.forward(new_spot_date)?.max(*spot);"),
# market data
("mk-spot-zero", "C27", M, 'find_market_data(id, &self.spots, "Spot") }', 'find_market_data(id, &self.spots, "Spot").or_else(|e| if self.vol_surfaces.contains_key(id) { Ok(0.0) } else { Err(e) }) }'),
("mk-curve-fallback", "C27", M, 'find_market_data(credit_id, &self.yield_curves, "Yield curve") }', 'find_market_data(credit_id, &self.yield_curves, "Yield curve").or_else(|e| if self.yield_curves.len() == 1 { self.yield_curves.values().next().cloned().ok_or(e) } else { Err(e) }) }'),
("mk-borrow-default", "C27", M, 'let borrow = find_market_data(id, &self.borrow_curves, "Borrow curve")?;', 'let borrow = match self.borrow_curves.get(id) { Some(b) => b.clone(), None => RcRateCurve::new(Arc::new(::data::curves::ZeroRateCurve::new(self.spot_date))) };'),
("mk-forward-borrow-as-yield", "C27", M, 'let borrow = find_market_data(id, &self.borrow_curves, "Borrow curve")?;', 'let borrow = find_market_data(id, &self.yield_curves, "Borrow curve").or(find_market_data(id, &self.borrow_curves, "Borrow curve"))?;'),
("mk-vol-nodate", "C08 C15 C23 C27", M, "instrument.vol_time_dynamics().modify(&mut vol, self.spot_date)?;", "use data::volsurface::VolSurface; let base = vol.base_date(); instrument.vol_time_dynamics().modify(&mut vol, base)?;"),
("mk-vol-nofwd", "C08 C23 C27", M, "instrument.vol_forward_dynamics().modify(&mut vol, forward_fn)?;", "let _ = forward_fn;"),
("mk-find-case", "C27", M, "match collection.get(id) { None => Err", "match collection.get(id.trim_right_matches('X')) { None => Err"),
("mk-find-prefix", "C27", K, "match collection.get(id) { None => Err", "match collection.get(id).or_else(|| collection.get(id.split(':').next().unwrap_or(id))) { None => Err"),
("mk-cached-corr", "C20 C27", K, "self.context.correlation(first, second)", "Ok(self.context.correlation(first, second).unwrap_or(0.0))"),
("mk-prefetch-fallback", "C27", K, 'find_cached_data(instrument.id(), &self.forward_curves, "Forward")', 'find_cached_data(instrument.id(), &self.forward_curves, "Forward").or_else(|_| self.context.forward_curve(instrument, _high_water_mark))'),
# cache
("mk-refetch-vol-early", "C08", K, "if !bumped_forward && !bumped_vol { return Ok(false) }", "if !bumped_forward { return Ok(bumped_vol) }"),
("mk-refetch-hwm", "C08", K, "*fwd = self.context.forward_curve(instrument, hwm)?;", "let hwm = hwm.min(self.context.spot_date() + 365); *fwd = self.context.forward_curve(instrument, hwm)?;"),
("mk-refetch-save-after", "C07", K, "if let Some(s) = saved_forward_curves { s.insert(id.to_string(), fwd.clone()); } if let Some(hwm) = self.dependencies.forward_curve_hwm(inst) { *fwd = self.context.forward_curve(instrument, hwm)?; } else { return Err(qm::Error::new(\"Cannot find forward\")) }", "if let Some(hwm) = self.dependencies.forward_curve_hwm(inst) { *fwd = self.context.forward_curve(instrument, hwm)?; } else { return Err(qm::Error::new(\"Cannot find forward\")) } if let Some(s) = saved_forward_curves { s.insert(id.to_string(), fwd.clone()); }"),
("mk-refetch-nofwd-quiet", "C20 C08", K, 'return Err(qm::Error::new("Cannot find forward"))', "return Ok(false)"),
("mk-refetch-novol-quiet", "C20 C08", K, 'return Err(qm::Error::new("Cannot find vol"))', ""),
("mk-refetch-missing-quiet", "C08 C20", K, 'return Err(qm::Error::new("Cannot find prefetched forward"))', "return Ok(false)"),
("mk-refetch-vol-unsaved", "C07", K, "if let Some(s) = saved_vol_surfaces { s.insert(id_string, vol.clone()); }", "if let Some(s) = saved_vol_surfaces { if !bumped_forward { s.entry(id_string).or_insert(vol.clone()); } }"),
("mk-refetch-vol-raw", "C08", K, "*vol = self.context.vol_surface(instrument, vol_hwm, &|| Ok(fwd.clone()))?;", "if self.context.spot_date() < vol_hwm { *vol = self.context.vol_surface(instrument, vol_hwm, &|| Ok(fwd.clone()))?; }"),
("mk-walk-volonly", "C08", K, "if let Some(vol_hwd) = vol_dependencies.get(rc_instrument) {", "if let (Some(vol_hwd), false) = (vol_dependencies.get(rc_instrument), vol_surfaces.contains_key(&id)) {", K, "self.vol_surfaces.clear();\n        walk", "walk"),
("mk-walk-skip-known", "C08", K, "self.forward_curves.clear(); self.vol_surfaces.clear(); walk", "walk", K, "let id = instrument.id().to_string(); let forward", "let id = instrument.id().to_string(); if forward_curves.contains_key(&id) { continue; } let forward"),
("mk-walk-hwm-vol", "C08 C11 C26", K, "let forward = context.forward_curve(instrument, *high_water_mark)?;", "let hwm = vol_dependencies.get(rc_instrument).unwrap_or(high_water_mark); let forward = context.forward_curve(instrument, *hwm)?;"),
("mk-bump-divs-vol", "C08", K, "&Bump::Divs(ref id, _) => self.refetch(&id, bumped, false,", "&Bump::Divs(ref id, _) => self.refetch(&id, false, bumped,"),
("mk-bump-yield-one", "C08", K, "for id in v.iter() { self.refetch(&id, bumped, false, Some(sfc), Some(svs))?; }", "for id in v.iter().take(1) { self.refetch(&id, bumped, false, Some(sfc), Some(svs))?; }"),
("mk-bump-yield-nosave", "C08", K, "if !done { for id", "if !done && v.len() < 2 { for id"),
("mk-bump-yield-false", "C06", K, "Ok(bumped) }, &Bump::SpotDate", "Ok(bumped && !v.is_empty()) }, &Bump::SpotDate"),
("mk-bump-yield-err", "C20", K, "self.refetch(&id, bumped, false, None, None)?;", "if let Err(_) = self.refetch(&id, bumped, false, None, None) { break; }"),
("mk-bump-date-noref", "C08 C15", K, "self.context.bump_spot_date(bump, &self.dependencies)?; self.refetch_all()?;", "self.context.bump_spot_date(bump, &self.dependencies)?; if !self.vol_surfaces.is_empty() { self.refetch_all()?; }"),
("mk-bump-date-past", "C15 C06 C08", K, "bump.spot_date() != self.spot_date()", "bump.spot_date() > self.spot_date()"),
("mk-bump-date-order", "C08 C15", K, "self.context.bump_spot_date(bump, &self.dependencies)?; self.refetch_all()?;", "self.refetch_all()?; self.context.bump_spot_date(bump, &self.dependencies)?;"),
("mk-prefetch-restore-vol", "C07", K, "copy_from_saved(&mut self.vol_surfaces, &saved.vol_surfaces);", "if saved.forward_curves.is_empty() { return Ok(()) } copy_from_saved(&mut self.vol_surfaces, &saved.vol_surfaces);"),
("mk-prefetch-restore-ctx", "C07", K, "self.context.restore(&saved.saved_data)?;", "if saved.vol_surfaces.is_empty() { self.context.restore(&saved.saved_data)?; }"),
("mk-prefetch-clear", "C07", K, "fn clear(&mut self) { self.saved_data.clear();", "fn clear(&mut self) {"),
("mk-prefetch-nosave", "C07", K, "(Some(&mut s.saved_data), Some(&mut s.forward_curves), Some(&mut s.vol_surfaces))", "(Some(&mut s.saved_data), Some(&mut s.forward_curves), None)"),
("mk-prefetch-context", "C08 C27 C07", K, "fn spot(&self, id: &str) -> Result<f64, qm::Error> { self.context.spot(id) }", "fn spot(&self, id: &str) -> Result<f64, qm::Error> { if let Some(f) = self.forward_curves.get(id) { return f.forward(self.context.spot_date()) } self.context.spot(id) }"),
("mk-raw", "C08 C09 C10 C15 C27", K, "fn context(&self) -> &PricingContext { self.as_pricing_context() }", "fn context(&self) -> &PricingContext { self.context.as_pricing_context() }"),
# dependencies
("mk-hwm-min", "C26", D, "pub fn set_hwm(instrument: &RcInstrument, high_water_mark: Date, map: &mut HashMap<RcInstrument, Date>) { let key = instrument.clone(); let entry = map.entry(key).or_insert(high_water_mark); if high_water_mark > *entry {", "pub fn set_hwm(instrument: &RcInstrument, high_water_mark: Date, map: &mut HashMap<RcInstrument, Date>) { let key = instrument.clone(); let entry = map.entry(key).or_insert(high_water_mark); if high_water_mark - *entry > 1 {"),
("mk-hwm-yield", "C26", D, "set_hwm_by_str(credit_id, high_water_mark, &mut self.yield_curves); {", "if !self.yield_curves.contains_key(credit_id) { set_hwm_by_str(credit_id, high_water_mark, &mut self.yield_curves); } {"),
("mk-dep-ids-one", "C26 C08", D, "if !forward_ids.iter().any(|id| id == instrument.id()) {", "if forward_ids.is_empty() {"),
("mk-dep-ids-prefix", "C26 C08", D, "if !forward_ids.iter().any(|id| id == instrument.id()) {", "if !forward_ids.iter().any(|id| id.starts_with(instrument.id())) {"),
("mk-dep-nospot", "C26", D, "self.spot(instrument); } fn vol_surface", "if !self.instruments.contains_key(instrument.id()) { self.spot(instrument); } } fn vol_surface"),
("mk-dep-spot-req", "C26", D, "if spot_requirement != SpotRequirement::NotRequired {", "if spot_requirement == SpotRequirement::Required {"),
("mk-dep-spot-instr", "C26", D, "self.spots.insert(key); self.add_instrument(instrument);", "if self.spots.insert(key) { } else { self.add_instrument(instrument); }"),
("mk-dep-vol-instr", "C26", D, "set_hwm(instrument, high_water_mark, &mut self.vol_surfaces); self.add_instrument(instrument);", "set_hwm(instrument, high_water_mark, &mut self.vol_surfaces);"),
("mk-dep-fixing-past", "C26", D, "self.fixings.entry(id.to_string()).or_insert(Vec::new()) .push(date)", "if date.date() > self.spot_date { self.fixings.entry(id.to_string()).or_insert(Vec::new()).push(date) }"),
("mk-dep-fixing-replace", "C26", D, "self.fixings.entry(id.to_string()).or_insert(Vec::new()) .push(date)", "self.fixings.insert(id.to_string(), vec![date]);"),
("mk-dep-fixing-dedup", "C26", D, "self.fixings.entry(id.to_string()).or_insert(Vec::new()) .push(date)", "let v = self.fixings.entry(id.to_string()).or_insert(Vec::new()); if !v.iter().any(|d| d.date() == date.date()) { v.push(date) }"),
("mk-dep-fixings-get", "C26 C15", D, "if let Some(fixings) = self.fixings.get(&id.to_string()) { &fixings }", "if let Some(fixings) = self.fixings.get(&id.to_string()) { &fixings[..1] }"),
("mk-dep-credit-get", "C26 C08", D, "= self.forward_id_from_credit_id.get(&credit_id.to_string()) { &ids }", "= self.forward_id_from_credit_id.get(&credit_id.to_string()) { &ids[..ids.len().min(8)] }"),
("mk-dep-hwm-get", "C26", D, "get_hwm(&self.vol_surfaces, instrument)", "get_hwm(&self.forward_curves, instrument)"),
("mk-dep-keys", "C26 C10", D, "self.instruments.keys().map(|id|id.to_string()).collect()", "self.instruments.keys().filter(|id| !id.is_empty()).take(64).map(|id|id.to_string()).collect()"),
("mk-dep-has-spot", "C26", D, "self.spots.contains(&key)", "self.spots.contains(&key) || self.forward_curves.contains_key(&key)"),
# fixings
("mk-fix-known-incl", "C14", X, "if date_time.date() < self.fixings_known_until {", "if date_time.date() <= self.fixings_known_until {"),
("mk-fix-noerr", "C14", X, "None => { if date_time.date() < self.fixings_known_until {", "None => { if date_time.date() < self.fixings_known_until && self.fixings_by_id.contains_key(id) {"),
("mk-fix-future-hidden", "C14", X, "Some(fixing) => Ok(Some(fixing)),", "Some(fixing) => if date_time.date() > self.fixings_known_until { Ok(None) } else { Ok(Some(fixing)) },"),
("mk-fix-overwrite", "C14", X, "if self.fixings_by_id.contains_key(id) { return Err(duplicate_fixing_curve(id)) }", ""),
("mk-fix-dup-same", "C14", X, "if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) { return", "if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) { if (value as f64 - fixing.1).abs() > 0.5 { return", X, "duplicate_fixing(id, value, fixing.1, fixing.0)) }", "duplicate_fixing(id, value, fixing.1, fixing.0)) } }"),
("mk-fix-dup-json", "C14", X, "if map.insert(k, v).is_some() {", "if map.insert(k, v).map_or(false, |old| old == v) {"),
("mk-fix-json-nan", "C14", X, "if map.insert(k, v).is_some() {", "if v != 0.0 && map.insert(k, v).is_some() {"),
("mk-fix-near", "C14", X, "if let Some(fixing) = self.fixing_by_date.get(&date_time) { Some(*fixing) }", "if let Some(fixing) = self.fixing_by_date.get(&date_time).or_else(|| self.fixing_by_date.get(&DateTime::new(date_time.date(), ::dates::datetime::TimeOfDay::Close))) { Some(*fixing) }"),
("mk-fix-zero", "C14", X, "Some(fixings) => fixings.get_optional(date_time),", "Some(fixings) => fixings.get_optional(date_time).and_then(|f| if f > 0.0 { Some(f) } else { None }),"),
("mk-fix-iter-skip", "C14", X, "let fixing_curve = Fixings::new(fixing.0.as_ref(), fixing.1.as_ref())?;", "if fixing.1.as_ref().is_empty() { break; } let fixing_curve = Fixings::new(fixing.0.as_ref(), fixing.1.as_ref())?;"),
("mk-fix-iter-err", "C14 C20", X, "fixing_table.insert(fixing.0.as_ref(), fixing_curve)?;", "if fixing_table.insert(fixing.0.as_ref(), fixing_curve).is_err() { continue; }"),
("mk-fix-until-default", "C02", X, "fixings_known_until: Date, fixings_by_id", "#[serde(default = \"Date::from_nil\")] fixings_known_until: Date, fixings_by_id"),
# dividends
("mk-div-bump-cashonly", "C06", V, "self.relative *= one_plus_bump;", "if self.cash == 0.0 { self.relative *= one_plus_bump; }"),
("mk-div-bump-skip-old", "C06", V, "div.bump_all_relative(one_plus_bump); }", "if div.ex_date < divs.last_cash_ex_date { div.bump_all_relative(one_plus_bump); } }"),
("mk-div-bump-yield", "C06", V, "RelativeBump::new(divs.div_yield(), one_plus_bump)", "RelativeBump::new(divs.div_yield(), bump)"),
("mk-div-bump-last", "C06", V, "last_cash_ex_date: divs.last_cash_ex_date }", "last_cash_ex_date: bumped_last }", V, "let bumped_yield =", "let bumped_last = bumped_divs.last().map_or(Date::from_nil(), |d| d.ex_date); let bumped_yield ="),
("mk-div-last", "C45 C37", V, "if div.cash != 0.0 { last_cash_ex_date = div.ex_date; }", "if div.cash != 0.0 && div.relative == 0.0 { last_cash_ex_date = div.ex_date; }"),
("mk-div-json", "C02", V, "div_yield: RcRateCurve, last_cash_ex_date: Date }", "div_yield: RcRateCurve, #[serde(skip_serializing, default = \"Date::from_nil\")] last_cash_ex_date: Date }"),
# forwards
("mk-fwd-hwm", "C45 C20 C27", V, "pub fn discounted_sum_from_base(&self, to: Date) -> Result<f64, qm::Error> { if to > self.high_water_mark { return Err(qm::Error::new(\"Accessing dividend stream \\ past the previously stated high_water mark\")) }", "pub fn discounted_sum_from_base(&self, to: Date) -> Result<f64, qm::Error> { let to = to.min(self.high_water_mark);"),
("mk-fwd-order", "C45 C20", V, 'return Err(qm::Error::new("Dividends not in ex date order"))', "continue;"),
]

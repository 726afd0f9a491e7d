"""Source edits for the self-test: (name, 'bug' or 'same', properties, [(file, old text, new text)])."""
EDITS = []


def bug(name, props, *reps):
    EDITS.append((name, "bug", props.split(), list(reps)))


def same(name, props, *reps):
    EDITS.append((name, "same", props.split(), list(reps)))


C = "src/risk/cache.rs"
M = "src/risk/marketdata.rs"
B = "src/models/blackdiffusion.rs"
D = "src/risk/dependencies.rs"

bug("c07-forget-vol-restore", "C07", (C, "            copy_from_saved(&mut self.vol_surfaces, &saved.vol_surfaces);\n", ""))
bug("c07-forget-borrow-restore", "C07", (M, "            copy_from_saved(&mut self.borrow_curves, &saved.borrow_curves);\n", ""))
bug("c07-save-after", "C07", (M, """            save.insert(key, entry.clone());
        }

        // update the new value and return true to say we changed it
        *entry = bump.apply(entry.clone());""", """            save.insert(key, bump.apply(entry.clone()));
        }

        // update the new value and return true to say we changed it
        *entry = bump.apply(entry.clone());"""))
bug("c07-save-wrong-map", "C07", (M, "saved.map_or(None, |s| Some(&mut s.borrow_curves))", "saved.map_or(None, |s| Some(&mut s.yield_curves))"))
bug("c07-yield-nosave", "C07", (C, "self.refetch(&id, bumped, false, Some(sfc), Some(svs))?;", "self.refetch(&id, bumped, false, None, Some(svs))?;"))
bug("c07-dup-ids", "C07 C26", (D, "if !forward_ids.iter().any(|id| id == instrument.id()) {", "{"))
bug("c07-clear", "C07", (C, "        self.vol_surfaces.clear();\n    }\n}\n\n// These", "    }\n}\n\n// These"))
bug("c07-clear2", "C07", (M, "        self.dividends.clear();\n", ""))
bug("c07-bd-paths", "C07", (B, "s.insert(*asset, path.to_owned());", "s.entry(*asset + 1).or_insert(path.to_owned());"))

bug("c26-min", "C26", (D, "    let entry = map.entry(id.to_string()).or_insert(high_water_mark);\n    if high_water_mark > *entry {", "    let entry = map.entry(id.to_string()).or_insert(high_water_mark);\n    if high_water_mark < *entry {"))
bug("c26-overwrite", "C26", (D, "    let key = instrument.clone();\n    let entry = map.entry(key).or_insert(high_water_mark);\n    if high_water_mark > *entry {\n        *entry = high_water_mark;\n    }", "    let key = instrument.clone();\n    map.insert(key, high_water_mark);"))
bug("c26-no-yield", "C26", (D, "        set_hwm_by_str(credit_id, high_water_mark, &mut self.yield_curves);\n        {", "        {"))
bug("c26-only-required", "C26", (D, "spot_requirement != SpotRequirement::NotRequired", "spot_requirement == SpotRequirement::Required"))
bug("c26-fixing-dedup", "C26", (D, "        self.fixings.entry(id.to_string()).or_insert(Vec::new())\n            .push(date)", "        self.fixings.entry(id.to_string()).or_insert(vec![date]);"))
bug("c26-no-recurse", "C26", (D, "        // and add a dependency on this spot (this adds the instrument)\n        self.spot(instrument);", "        self.spots.insert(instrument.clone());\n        self.add_instrument(instrument);"))
same("c26-match", "C26", (D, "    let entry = map.entry(id.to_string()).or_insert(high_water_mark);\n    if high_water_mark > *entry {\n        *entry = high_water_mark;\n    }", "    let current = map.get(id).cloned();\n    match current {\n        Some(d) if d >= high_water_mark => {},\n        _ => { map.insert(id.to_string(), high_water_mark); }\n    }"))
same("c26-reorder", "C26", (D, "        // and add a dependency on this spot (this adds the instrument)\n        self.spot(instrument);", ""), (D, "        set_hwm(instrument, high_water_mark, &mut self.forward_curves);\n\n", "        self.spot(instrument);\n        set_hwm(instrument, high_water_mark, &mut self.forward_curves);\n\n"))
same("c26-loop", "C26", (D, "            if !forward_ids.iter().any(|id| id == instrument.id()) {\n", "            let mut seen = false;\n            for id in forward_ids.iter() {\n                if id == instrument.id() { seen = true; break; }\n            }\n            if !seen {\n"))
bug("c27-default-spot", "C27", (M, "        find_market_data(id, &self.spots, \"Spot\")\n", "        Ok(self.spots.get(id).cloned().unwrap_or(0.0))\n"))
bug("c27-borrow-by-credit", "C27", (M, "        let borrow = find_market_data(id, &self.borrow_curves, \"Borrow curve\")?;\n        \n        let credit_id = instrument.credit_id();", "        let credit_id = instrument.credit_id();\n        let borrow = find_market_data(credit_id, &self.borrow_curves, \"Borrow curve\")?;\n"))
bug("c27-swap", "C27", (M, "            yield_curve, borrow, &*divs", "            borrow, yield_curve, &*divs"))
bug("c27-prefetch-fallthrough", "C27", (C, "        find_cached_data(instrument.id(), &self.forward_curves, \"Forward\")", "        match self.forward_curves.get(instrument.id()) {\n            Some(x) => Ok(x.clone()),\n            None => self.context.forward_curve(instrument, _high_water_mark)\n        }"))
same("c27-inline", "C27", (M, "        find_market_data(id, &self.spots, \"Spot\")\n", "        if let Some(x) = self.spots.get(id) {\n            return Ok(*x);\n        }\n        Err(qm::Error::new(\"no spot\"))\n"))
same("c27-order", "C27", (M, "        let spot = find_market_data(id, &self.spots, \"Spot\")?;\n        let divs = find_market_data(id, &self.dividends, \"Dividends\")?;\n", "        let divs = find_market_data(id, &self.dividends, \"Dividends\")?;\n        let spot = find_market_data(id, &self.spots, \"Spot\")?;\n"))
bug("c08-borrow-norefetch", "C08", (C, "&Bump::Borrow(ref id, _) => self.refetch(&id, bumped, false,", "&Bump::Borrow(ref id, _) => self.refetch(&id, false, bumped,"))
bug("c08-vol-norefetch", "C08", (C, "&Bump::Vol(ref id, _) => self.refetch(&id, false, bumped,", "&Bump::Vol(ref id, _) => self.refetch(&id, bumped, false,"))
bug("c08-date-order", "C08", (C, "                    self.context.bump_spot_date(bump, &self.dependencies)?; \n                    self.refetch_all()?;", "                    self.refetch_all()?;\n                    self.context.bump_spot_date(bump, &self.dependencies)?; "))
bug("c08-yield-first", "C08", (C, "                if !done {\n                    for id in v.iter() {", "                if !done {\n                    for id in v.iter().take(1) {"))
bug("c08-noclear", "C08", (C, "        self.forward_curves.clear();\n        self.vol_surfaces.clear();\n        walk", "        if !self.forward_curves.is_empty() { return Ok(()) }\n        walk"))
bug("c08-bd-yield", "C08", (B, "                        self.refetch(&id, bumped, None)?;\n                    }\n                }\n                Ok(bumped)", "                        self.refetch(&id, false, None)?;\n                    }\n                }\n                Ok(bumped)"))
bug("c08-bd-vol", "C08", (B, "            &Bump::Vol(ref id, _) => self.refetch(&id, bumped, saved_paths),", "            &Bump::Vol(_, _) => Ok(bumped),"))
bug("c08-bd-date", "C08", (B, "                if bumped {\n                    // Theta", "                if !bumped {\n                    // Theta"))
bug("c08-ignore-missing", "C08", (C, "                return Err(qm::Error::new(\"Cannot find instrument\"))", "                return Ok(true)"))
same("c08-early", "C08", (C, "        if !bumped_forward && !bumped_vol {\n            return Ok(false)\n        }", "        if !(bumped_forward || bumped_vol) {\n            return Ok(bumped_vol)\n        }"))

O = "src/instruments/options.rs"
BA = "src/instruments/basket.rs"
IN = "src/instruments/mod.rs"
BO = "src/instruments/bonds.rs"
AS = "src/instruments/assets.rs"
OPR = "src/math/optionpricing.rs"
SP = "src/pricers/selfpricer.rs"

bug("c25-weight-squared", "C25", (BA, "*o += i * weight;", "*o += i * weight * weight.signum();"))
bug("c25-overwrite", "C25", (BA, "*o += i * weight;", "*o = i * weight;"))
bug("c25-last-wins-deps", "C25 C11", (BA, "for &(_, ref underlying) in self.basket.iter() {", "for &(_, ref underlying) in self.basket.iter().skip(1) {"))
same("c25-sum-loop", "C25", (BA, """            for (i, o) in temp.iter().zip(out.iter_mut()) {
                *o += i * weight;
            }""", """            for i in 0..n_dates {
                let contribution = weight * temp[i];
                out[i] = out[i] + contribution;
            }"""))

bug("c13-drop-later", "C13", (IN, """        } else if modified {
            // once we've started copying, we have to copy everything
            basket.push((weight, instrument.clone()));
        } else {""", """        } else {"""))
bug("c13-drop-earlier", "C13", (IN, "instruments.iter().take(uncopied) {", "instruments.iter().skip(1).take(uncopied) {"))
bug("c13-weight", "C13", (IN, "basket.push((weight * weight2, instrument.clone()));", "basket.push((weight2, instrument.clone()));"))
bug("c13-strike-date", "C13 C35", (O, """        let fixing = fixing_table.get(self.vanilla.underlying.id(),
            self.strike_date)?;""", """        let fixing = fixing_table.get(self.vanilla.underlying.id(),
            self.vanilla.expiry)?;"""))
bug("c13-fraction", "C13 C35", (O, "let strike = f * self.strike_fraction;", "let strike = f / self.strike_fraction;"))
same("c13-rewrite", "C13 C25", (IN, """    let mut basket : Vec<(f64, RcInstrument)> = Vec::new();
    let mut uncopied = 0;
    let mut modified = false;
""", """    let mut basket : Vec<(f64, RcInstrument)> = Vec::new();
    let mut modified = false;
"""), (IN, """            // create a new basket and copy all the previous elements into it
            if !modified {
                for &(prev_weight, ref prev_instrument) in instruments.iter().take(uncopied) {
                    basket.push((prev_weight, prev_instrument.clone()));
                }
                uncopied = 0;
                modified = true;
            }
""", "            modified = true;\n"), (IN, """        } else if modified {
            // once we've started copying, we have to copy everything
            basket.push((weight, instrument.clone()));
        } else {
            uncopied += 1;
        }""", """        } else {
            basket.push((weight, instrument.clone()));
        }"""))

bug("c35-put-sign", "C35", (O, """            match self.vanilla.cash_or_physical {

                // cash""", """            let sign = if spot_fixing > 1e9 { 1.0 } else { sign };
            match self.vanilla.cash_or_physical {

                // cash"""))
bug("c35-physical-otm", "C35 C13", (O, "                    if sign * (spot_fixing - strike) > 0.0 {\n", "                    if spot_fixing - strike > 0.0 {\n"))
bug("c35-physical-sign", "C35 C13", (O, "decomp.push((-strike * sign,", "decomp.push((-strike,"))
bug("c35-mc-put", "C35 C12", (O, """        let strike_fraction = self.strike_fraction;
        let sign = match self.vanilla.put_or_call {
            PutOrCall::Call => 1.0,
            PutOrCall::Put => -1.0 };""", """        let strike_fraction = self.strike_fraction;
        let sign = 1.0;"""))
bug("c35-mc-obs", "C35 C12", (O, "                let strike = strike_fraction * path[0];\n                let spot = path[1];", "                let strike = strike_fraction * path[1];\n                let spot = path[0];"))
bug("c35-disp", "C35 C36", (O, "let k = strike - displacement;", "let k = strike;"))
bug("c36-vol-from", "C36", (O, "let from_date = vol_from.max(val_date);", "let from_date = val_date;"))
bug("c36-strike-vol", "C36", (O, "vol.forward_variance(from_date, self.expiry_time, strike)?", "vol.forward_variance(from_date, self.expiry_time, forward)?"))
bug("c36-swap", "C36 C40 C35", (O, "PutOrCall::Put => black76.put_price(df, f, k, sqrt_var),", "PutOrCall::Put => black76.put_price(df, k, f, sqrt_var),"))
bug("c36-d2", "C36 C40", (OPR, "df * (self.cdf(-d_minus) * strike - self.cdf(-d_plus) * forward)", "df * (self.cdf(-d_minus) * strike - self.cdf(-d_plus) * forward).max(0.0)"))
bug("c36-after", "C36 C28", (O, "*output = if *date <= ex_date {", "*output = if *date < ex_date {"))
bug("c28-df", "C28 C36", (O, "let df = df_from_base * yc.rt(settlement_date)?.exp();", "let df = df_from_base * yc.rt(date.date())?.exp();"))
bug("c28-bond-df", "C28", (BO, "let settlement_date = self.settlement().apply(date.date());\n                yc.df(self.payment_date, settlement_date)?", "yc.df(self.payment_date, date.date())?"))
bug("c28-equity", "C28", (AS, "dates.len() == 1 && dates[0].date() == context.spot_date()", "dates.len() == 1 && dates[0].date() <= context.spot_date()"))
same("c28-rewrite", "C28 C36 C35 C40", (O, "let df = df_from_base * yc.rt(settlement_date)?.exp();", "let df = (yc.rt(settlement_date)? - yc.rt(self.pay_date)?).exp();"),
     (O, "let price = match self.put_or_call {", "let price = if let PutOrCall::Call = self.put_or_call { black76.call_price(df, f, k, sqrt_var) } else { match self.put_or_call {"),
     (O, "PutOrCall::Call => black76.call_price(df, f, k, sqrt_var)\n                };", "PutOrCall::Call => black76.call_price(df, f, k, sqrt_var)\n                } };"))

bug("c37-sigma", "C37", (B, "sigmas.push(fwd_var.sqrt());", "sigmas.push((var - prev_var).sqrt());"))
bug("c37-prev", "C37", (B, "        sigmas.push(fwd_var.sqrt());\n        prev_var = *var;", "        sigmas.push(fwd_var.sqrt());\n        prev_var += *var;"))
bug("c37-reuse", "C37", (B, "                point *= 1.0 + gaussians[g] * sigma;\n                g += 1;\n            }\n", "                point *= 1.0 + gaussians[g] * sigma;\n            }\n            g += 1;\n"))
bug("c37-disp", "C37", (B, "one_path[i] = point * forwards[i] + displacements[i];", "one_path[i] = point * (forwards[i] + displacements[i]);"))
bug("c37-asset", "C37", (B, "        correlated_gaussians.axis_iter(Axis(2))).zip(\n", "        correlated_gaussians.axis_iter(Axis(2)).rev()).zip(\n"))
bug("c37-steps", "C37", (B, "*substep = (*substep).max(steps);", "*substep = steps.max(1);"))
bug("c37-corr", "C37", (B, "            correl[(i, j)] = c;\n", "            correl[(i, j)] = c * c;\n"))
bug("c37-root", "C37", (B, "rootd.unpack().transpose().as_slice()", "rootd.unpack().as_slice()"))
same("c37-rewrite", "C37 C12", (B, """            for _ in 0..substepping[i] {
                point *= 1.0 + gaussians[g] * sigma;
                g += 1;
            }
""", """            let end = g + substepping[i];
            while g < end {
                point += point * sigma * gaussians[g];
                g += 1;
            }
"""))
bug("c12-obs-order", "C12", (O, """        output.observation(&self.vanilla.underlying, self.strike_time);
        output.observation(&self.vanilla.underlying, self.vanilla.expiry_time);
""", """        output.observation(&self.vanilla.underlying, self.vanilla.expiry_time);
        output.observation(&self.vanilla.underlying, self.strike_time);
"""))
bug("c11-equity-hwm", "C11", (O, "context.vol_surface(&self.underlying, expiry_date);", ""))

DG, VV, TB, BT, FX, RM = "src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/timebumped.rs", "src/risk/bumptime.rs", "src/data/fixings.rs", "src/risk/mod.rs"
SPR, MCP, BV = "src/pricers/selfpricer.rs", "src/pricers/montecarlo.rs", "src/data/bumpvol.rs"
bug("c09-no-restore", "C09", (DG, "            pricer.as_mut_bumpable().restore(saveable)?;\n", ""))
bug("c09-no-clear", "C09", (VV, "            saveable.clear();\n", ""))
bug("c09-clear-first", "C09", (DG, "            pricer.as_mut_bumpable().restore(saveable)?;\n            saveable.clear();\n", "            saveable.clear();\n            pricer.as_mut_bumpable().restore(saveable)?;\n"))
bug("c09-after-loop", "C09", (DG, "            pricer.as_mut_bumpable().restore(saveable)?;\n            saveable.clear();\n", ""),
    (DG, "        Ok(Qbox::new(Box::new(DeltaGammaReport {", "        pricer.as_mut_bumpable().restore(saveable)?;\n        saveable.clear();\n        Ok(Qbox::new(Box::new(DeltaGammaReport {"))
bug("c09-save-second", "C09", (VV, "bumped_price(&bump, pricer, Some(saveable), unbumped)?", "bumped_price(&bump, pricer, None, unbumped)?"),
    (VV, "let downbumped = bumped_price(&bump, pricer, None, unbumped)?", "let downbumped = bumped_price(&bump, pricer, Some(saveable), unbumped)?"))
bug("c09-restore-if-changed", "C09", (DG, "            pricer.as_mut_bumpable().restore(saveable)?;\n            saveable.clear();\n", "            if upbumped != downbumped {\n                pricer.as_mut_bumpable().restore(saveable)?;\n                saveable.clear();\n            }\n"))
bug("c09-theta-original", "C09 C15", (TB, "subgenerator.generate(&mut *pricer_clone, saveable, time_bumped)?", "subgenerator.generate(pricer, saveable, time_bumped)?"),)
bug("c15-original", "C15 C09", (TB, "        let mut pricer_clone = pricer.clone_box();\n", "        let pricer_clone = pricer;\n"), (TB, "generate(&mut *pricer_clone,", "generate(pricer_clone,"))
bug("c10-unbumped-sub", "C10", (TB, "subgenerator.generate(&mut *pricer_clone, saveable, time_bumped)?", "subgenerator.generate(&mut *pricer_clone, saveable, unbumped)?"))
bug("c10-gamma", "C10", (DG, "/ bumpsize.powi(2);", "/ self.bumpsize.powi(2) / spot;"))
bug("c10-spot-bumped", "C10", (DG, "            let spot = pricer.as_bumpable().context().spot(id)?;\n\n", ""),
    (DG, "            let downbumped = bumped_price", "            let spot = pricer.as_bumpable().context().spot(id)?;\n            let downbumped = bumped_price"))
bug("c10-down", "C10", (DG, "(1.0 - self.bumpsize) / (1.0 + self.bumpsize) - 1.0", "-2.0 * self.bumpsize"))
bug("c10-vega", "C10", (VV, "let bumpsize_2 = bumpsize.powi(2);", "let bumpsize_2 = bumpsize * 2.0;"))
bug("c10-opposite", "C10", (BV, "=> BumpVol::TimeScaled { size : down_bump, floor: floor },", "=> BumpVol::TimeScaled { size : down_bump, floor: floor * 2.0 },"))
bug("c10-price-skip", "C10 C09", (RM, "    if pricer.as_mut_bumpable().bump(bump, saveable)? {\n        pricer.price()\n    } else {\n        Ok(unbumped)\n    }", "    pricer.as_mut_bumpable().bump(bump, saveable)?;\n    pricer.price().or(Ok(unbumped))"))
same("c09-restore-between", "C09 C10", (DG, "            let downbumped = bumped_price(&bump, pricer, None, unbumped)?;\n", "            pricer.as_mut_bumpable().restore(saveable)?;\n            saveable.clear();\n            let downbumped = bumped_price(&bump, pricer, Some(saveable), unbumped)?;\n"),
     (DG, "let down = BumpSpot::new_relative(down_bump);", "let down = BumpSpot::new_relative(-self.bumpsize);"), (DG, "        let down_bump = (1.0 - self.bumpsize) / (1.0 + self.bumpsize) - 1.0;\n", ""))
same("c09-helper", "C09 C10", (VV, "            pricer.as_mut_bumpable().restore(saveable)?;\n            saveable.clear();\n", "            undo(pricer, saveable)?;\n"),
     (VV, "impl ReportGenerator for VegaVolgaReportGenerator {", "fn undo(pricer: &mut Pricer, saveable: &mut Saveable) -> Result<(), qm::Error> {\n    pricer.as_mut_bumpable().restore(saveable)?;\n    saveable.clear();\n    Ok(())\n}\n\nimpl ReportGenerator for VegaVolgaReportGenerator {"),
     (VV, "for id in instruments.iter() {\n\n", "for i in 0..instruments.len() {\n            let id = &instruments[i];\n"))
same("c10-inline-opposite", "C10", (VV, "self.bump.opposite()", "match self.bump {\n                BumpVol::FlatAdditive { size } => BumpVol::FlatAdditive { size: (1.0 - size) / (1.0 + size) - 1.0 },\n                BumpVol::TimeScaled { size, floor } => BumpVol::TimeScaled { size: (1.0 - size) / (1.0 + size) - 1.0, floor },\n                BumpVol::Replace { .. } => self.bump.opposite() }"))
bug("c14-strict", "C14", (FX, "if date_time.date() < self.fixings_known_until {", "if date_time.date() <= self.fixings_known_until {"))
bug("c14-dup", "C14", (FX, "            if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) {\n                return Err(duplicate_fixing(id, value, fixing.1, fixing.0))\n            }", "            if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) {\n                if value == fixing.1 { continue; }\n                return Err(duplicate_fixing(id, value, fixing.1, fixing.0))\n            }"))
bug("c14-first-only", "C14", (FX, "            let fixing_curve = Fixings::new(fixing.0.as_ref(), fixing.1.as_ref())?;\n            fixing_table.insert(fixing.0.as_ref(), fixing_curve)?;", "            let fixing_curve = Fixings::new(fixing.0.as_ref(), fixing.1.as_ref())?;\n            let _ = fixing_table.insert(fixing.0.as_ref(), fixing_curve);"))
same("c14-rewrite", "C14 C15", (FX, "            if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) {\n                return Err(duplicate_fixing(id, value, fixing.1, fixing.0))\n            }", "            let (time, value) = *fixing;\n            if let Some(old) = fixing_by_date.get(&time) {\n                return Err(duplicate_fixing(id, *old, value, time));\n            }\n            fixing_by_date.insert(time, value);"))
bug("c15-window-lo", "C15", (BT, "date >= old_spot_date && date < new_spot_date", "date > old_spot_date && date < new_spot_date"))
bug("c15-window-hi", "C15", (BT, "date >= old_spot_date && date < new_spot_date", "date >= old_spot_date && date <= new_spot_date"))
bug("c15-forward-date", "C15", (BT, "curve.forward(date)?", "curve.forward(new_spot_date)?"))
bug("c15-one-per-id", "C15", (BT, "                        .push((*fixing, value));\n", "                        .push((*fixing, value));\n                    break;\n"))
bug("c15-known-until", "C15", (BT, "from_iter_known_until(new_spot_date,", "from_iter_known_until(old_spot_date,"))
bug("c15-no-clear", "C15", (BT, "                instruments.clear();\n", ""))
bug("c15-order", "C15", (BT, "        let modified = self.update_instruments(\n            instruments, bumpable.context(), bumpable.dependencies()?)?;\n", ""),
    (BT, "        bumpable.bump(&bump, None)?;\n", "        bumpable.bump(&bump, None)?;\n        let modified = self.update_instruments(\n            instruments, bumpable.context(), bumpable.dependencies()?)?;\n"))
bug("c15-no-rebuild", "C15", (SPR, "        if bump.apply(&mut self.instruments, &mut self.context)? {", "        if bump.apply(&mut self.instruments, &mut self.context)? && self.instruments.len() > 1 {"))
bug("c15-copy-lost", "C15", (MCP, "fn clone_box(&self) -> Box<Pricer> { Box::new(self.clone()) }", "fn clone_box(&self) -> Box<Pricer> { let mut c = self.clone(); c.instruments.truncate(1); Box::new(c) }"))
same("c15-rewrite", "C15", (BT, """                if date >= old_spot_date && date < new_spot_date {
                    let value = match""", """                if date < old_spot_date || date >= new_spot_date {
                    continue;
                }
                {
                    let value = match"""),
     (BT, "                    fixing_map.entry(id.to_string()).or_insert(Vec::<(DateTime, f64)>::new())\n                        .push((*fixing, value));", "                    let list = fixing_map.entry(id.to_string()).or_insert_with(|| Vec::<(DateTime, f64)>::new());\n                    list.push((*fixing, value));"))
CI = "src/facade/c_interface.rs"
HA = "src/facade/handle.rs"
FA = "src/facade/mod.rs"
BR = "src/math/brent.rs"
IV = "src/solvers/impliedvol.rs"
bug("c16-free-outside", "C16", (CI, "    if let Err(_) = catch_unwind(|| eh::free_handle(handle)) {\n        // unlike eprint!, this cannot itself panic if stderr is closed\n        let _ = io::stderr().write_all(b\"Caught panic during qm_free_handle\");\n    }", "    eh::free_handle(handle);"))
bug("c16-println", "C16", (HA, "        if let &Handle::Err(_) = handle_from_ext(handle) { true } else { false }", "        println!(\"is_error {}\", handle);\n        if let &Handle::Err(_) = handle_from_ext(handle) { true } else { false }"))
bug("c16-work-outside", "C16", (CI, "    return_handle(&|| {\n        let bytes = bytes_from_c_string(source);\n        let result = facade::reports_from_json(&mut Cursor::new(bytes));\n        Ok(Handle::from_reports(result))\n    })", "    let bytes = bytes_from_c_string(source);\n    let result = facade::reports_from_json(&mut Cursor::new(bytes));\n    eh::from_handle(Ok(Handle::from_reports(result)))"))
bug("c16-resume", "C16", (CI, "        Err(_) => eh::from_handle(Ok(Handle::from_error(qm::Error::new(\"Caught panic during clone\"))))", "        Err(e) => ::std::panic::resume_unwind(e)"))
bug("c16-caught-ok", "C16 C18", (CI, "        Err(_) => Err(qm::Error::new(\"Caught panic when creating handle\"))", "        Err(_) => Ok(Handle::from_empty(Ok(())))"))
bug("c16-unwrap-outside", "C16", (CI, "    let reports_string = match catch_unwind(||\n        CString::new(eh::reports_as_string(handle)).unwrap()) {\n        Ok(result) => result,", "    let reports_string = match catch_unwind(||\n        CString::new(eh::reports_as_string(handle))) {\n        Ok(result) => result.unwrap(),"))
same("c16-unwrap-or-else", "C16 C17 C18", (CI, "    let result = match catch_unwind(|| f() ) {\n        Ok(result) => result,\n        Err(_) => Err(qm::Error::new(\"Caught panic when creating handle\"))\n    };\n    eh::from_handle(result)", "    let caught = catch_unwind(|| f());\n    eh::from_handle(caught.unwrap_or_else(|_| Err(qm::Error::new(\"panic\"))))"))
same("c16-helper", "C16 C17 C18", (CI, "    match catch_unwind(|| eh::clone_handle(handle)) {\n        Ok(handle) => handle,\n        Err(_) => eh::from_handle(Ok(Handle::from_error(qm::Error::new(\"Caught panic during clone\"))))\n    }\n}", "    if let Ok(copy) = catch_unwind(|| eh::clone_handle(handle)) {\n        return copy;\n    }\n    failed(\"Caught panic during clone\")\n}\n\nfn failed(message: &str) -> u64 {\n    let error = qm::Error::new(message);\n    eh::from_handle(Err(error))\n}"))
bug("c17-borrow-frees", "C17", (HA, "        handle_from_ext(handle).as_fixing_table()", "        unsafe { Box::from_raw(handle as *mut Handle) }.as_fixing_table()"))
bug("c17-free-leaks", "C17", (HA, "        unsafe { Box::from_raw(handle as *mut Handle) };\n    }\n\n    /// Warning", "        let h = unsafe { Box::from_raw(handle as *mut Handle) };\n        if let &Handle::Reports(_) = &*h { ::std::mem::forget(h); }\n    }\n\n    /// Warning"))
bug("c17-reports-leak", "C17", (CI, "        let reports = eh::as_reports(reports_freed);\n        let expected = eh::as_reports(expected_freed);\n\n        let result = facade::assert_approx_eq_reports(&reports?, &expected?,", "        let reports = eh::as_reports(reports_freed)?;\n        let expected = eh::as_reports(expected_freed)?;\n\n        let result = facade::assert_approx_eq_reports(&reports, &expected,"))
bug("c17-clone-alias", "C17", (HA, "        let cloned = Box::new(handle_from_ext(handle).clone());\n", "        if let &Handle::Empty = handle_from_ext(handle) { return handle }\n        let cloned = Box::new(handle_from_ext(handle).clone());\n"))
bug("c17-string-free", "C17", (CI, "    let _ = unsafe { CString::from_raw(string) };", "    let _ = unsafe { Box::from_raw(string) };"))
bug("c17-is-error-free", "C17", (HA, "        if let &Handle::Err(_) = handle_from_ext(handle) { true } else { false }", "        let h = unsafe { Box::from_raw(handle as *mut Handle) };\n        if let &Handle::Err(_) = &*h { true } else { ::std::mem::forget(h); false }"))
same("c17-rewrite", "C16 C17 C18", (HA, "        let handle = unsafe { Box::from_raw(handle_which_is_freed as *mut Handle) };\n        handle.as_reports()", "        let boxed: Box<Handle> = unsafe { Box::from_raw(handle_which_is_freed as *mut Handle) };\n        let inner = *boxed;\n        match inner {\n            Handle::Reports(r) => Ok(r),\n            other => other.as_reports()\n        }"),
     (HA, "        unsafe { Box::from_raw(handle as *mut Handle) };\n    }\n\n    /// Warning", "        let owned = unsafe { Box::from_raw(handle as *mut Handle) };\n        drop(owned);\n    }\n\n    /// Warning"))
bug("c18-accept-err", "C18", (HA, "            &Handle::Empty => Ok(()),\n            &Handle::Err(ref err) => Err(err.clone()),", "            &Handle::Empty => Ok(()),\n            &Handle::Err(_) => Ok(()),"))
bug("c18-message-lost", "C18", (HA, "            &Handle::Currency(ref ccy) => Ok(ccy.clone()),\n            &Handle::Err(ref err) => Err(err.clone()),", "            &Handle::Currency(ref ccy) => Ok(ccy.clone()),\n            &Handle::Err(_) => Err(self.wrong_type(\"Currency\")),"))
bug("c18-skip-bad", "C18", (CI, "        let mut gen = Vec::with_capacity(number_of_report_generators as usize);\n        for i in 0..(number_of_report_generators as isize) {\n            unsafe { gen.push(eh::as_report_generator(*report_generators.offset(i))?) };\n        }", "        let mut gen = Vec::with_capacity(number_of_report_generators as usize);\n        for i in 0..(number_of_report_generators as isize) {\n            if let Ok(g) = eh::as_report_generator(unsafe { *report_generators.offset(i) }) { gen.push(g) }\n        }"))
bug("c18-swap", "C18", (CI, "        &QmDedupControl::QmErrorIfMissing => DedupControl::ErrorIfMissing,", "        &QmDedupControl::QmErrorIfMissing => DedupControl::Inline,"))
bug("c18-is-error", "C18", (HA, "        if let &Handle::Err(_) = handle_from_ext(handle) { true } else { false }", "        match handle_from_ext(handle) { &Handle::Err(_) | &Handle::Empty => true, _ => false }"))
bug("c18-file-lossy", "C18", (CI, "    let filename = str::from_utf8(source_bytes)?;\n    let file = File::open(filename)?;", "    let filename = str::from_utf8(source_bytes).unwrap_or(\"\");\n    let file = File::open(filename)?;"))
bug("c18-last-instr", "C18", (CI, "        for i in 0..(number_of_instruments as isize) {\n            unsafe { instr_vec.push(eh::as_instrument(*instruments.offset(i))?) };\n        }\n\n        let result = facade::instrument_from_json(&mut Cursor", "        for i in 1..(number_of_instruments as isize) {\n            unsafe { instr_vec.push(eh::as_instrument(*instruments.offset(i))?) };\n        }\n\n        let result = facade::instrument_from_json(&mut Cursor"))
same("c18-iter", "C16 C17 C18", (CI, "        let mut gen = Vec::with_capacity(number_of_report_generators as usize);\n        for i in 0..(number_of_report_generators as isize) {\n            unsafe { gen.push(eh::as_report_generator(*report_generators.offset(i))?) };\n        }", "        let mut gen = Vec::new();\n        let mut i = 0;\n        while i < number_of_report_generators as isize {\n            let handle = unsafe { *report_generators.offset(i) };\n            gen.push(eh::as_report_generator(handle)?);\n            i += 1;\n        }"))
same("c18-order", "C16 C17 C18", (CI, "        let pf = eh::as_pricer_factory(pricer_factory)?;\n        let instr = eh::as_instrument(instrument)?;\n", "        let instr = eh::as_instrument(instrument)?;\n        let pf = eh::as_pricer_factory(pricer_factory)?;\n"))
bug("c19-width", "C19", (CI, "    number_of_report_generators: u32, report_generators: *const u64) -> u64 {", "    number_of_report_generators: u64, report_generators: *const u64) -> u64 {"))
bug("c19-order", "C19", (CI, "    tol_price: f64, tol_ccy_risk: f64, tol_unit_risk: f64) -> u64 {", "    tol_price: f64, tol_unit_risk: f64, tol_ccy_risk: f64) -> u64 {"))
bug("c19-repr", "C19", (CI, "#[repr(C)]\npub enum QmDedupControl", "#[repr(u8)]\npub enum QmDedupControl"))
bug("c19-enum-order", "C19", (CI, "    QmErrorIfMissing,\n    QmInline,\n", "    QmInline,\n    QmErrorIfMissing,\n"))
bug("c19-mangled", "C19", (CI, "#[no_mangle]\npub extern \"C\" fn qm_clone(", "pub extern \"C\" fn qm_clone("))
bug("c30-bracket", "C30", (BR, "if (fa > 0.0 && fb > 0.0) || (fa < 0.0 && fb < 0.0) {\n        return", "if fa > 0.0 && fb > 0.0 {\n        return"))
bug("c30-limit-ok", "C30", (BR, "    Err(qm::Error::new(\"Maximum number of iterations exceeded in zbrent\"))", "    Ok(b)"))
bug("c30-tol", "C30", (BR, "2.0 * EPSILON * b.abs() + 0.5 * tol", "2.0 * EPSILON * b.abs() + tol"))
bug("c30-rename", "C30", (BR, "if (fb > 0.0 && fc > 0.0) || (fb < 0.0 && fc < 0.0) {", "if fb > 0.0 && fc > 0.0 {"))
bug("c30-stale", "C30", (BR, "        a = b;\n        fa = fb;\n        // eval", "        a = b;\n        // eval"))
bug("c30-flat", "C30", (BR, "if xm.abs() <= tol1 || fb == 0.0 {", "if xm.abs() <= tol1 || fb.abs() <= tol {"))
bug("c30-small-step", "C30", (BR, "if xm.abs() <= tol1 || fb == 0.0 {", "if xm.abs() <= tol1 || d.abs() <= tol1 || fb == 0.0 {"))
bug("c30-error-root", "C30", (BR, "        fb = func(b)?;\n    }", "        fb = match func(b) { Ok(y) => y, Err(_) => return Ok(a) };\n    }"))
bug("c30-iv-best", "C30", (IV, "        zbrent(min, max, self.tolerance, self.max_iter, \n            &mut | vol | Ok(price_given_vol(pricer, vol, &id)? - target))", "        Ok(zbrent(min, max, self.tolerance, self.max_iter, \n            &mut | vol | Ok(price_given_vol(pricer, vol, &id)? - target)).unwrap_or(min))"))
bug("c30-iv-two", "C30", (IV, "if vols.len() > 1 {", "if vols.len() > 2 {"))
bug("c30-iv-err", "C30", (IV, "Ok(price_given_vol(pricer, vol, &id)? - target)", "Ok(price_given_vol(pricer, vol, &id).unwrap_or(0.0) - target)"))
bug("c30-swap-one", "C30", (BR, "            fa = fb;\n            fb = fc;\n            fc = fa;\n", "            fa = fb;\n            fb = fc;\n"))
same("c30-while", "C30", (BR, "    for _ in 0..max_iter {\n", "    let mut round = 0;\n    while round < max_iter {\n        round += 1;\n"))
same("c30-helper", "C30", (BR, "if (fb > 0.0 && fc > 0.0) || (fb < 0.0 && fc < 0.0) {", "if one_sign(fb, fc) {"), (BR, "if (fa > 0.0 && fb > 0.0) || (fa < 0.0 && fb < 0.0) {", "if one_sign(fa, fb) {"),
     (BR, "/// Brent's method", "fn one_sign(u: f64, v: f64) -> bool {\n    (u > 0.0 && v > 0.0) || (u < 0.0 && v < 0.0)\n}\n\n/// Brent's method"))
same("c30-converged", "C30", (BR, "        let tol1 = 2.0 * EPSILON * b.abs() + 0.5 * tol;\n        let xm = 0.5 * (c - b);\n        if xm.abs() <= tol1 || fb == 0.0 {\n            return Ok(b)\n        }", "        if fb == 0.0 {\n            return Ok(b)\n        }\n        let tol1 = 0.5 * tol + 2.0 * EPSILON * b.abs();\n        let xm = (c - b) / 2.0;\n        if tol1 >= xm.abs() {\n            return Ok(b)\n        }"))
same("c30-swap", "C30", (BR, "            a = b;\n            b = c;\n            c = a;\n            fa = fb;\n            fb = fc;\n            fc = fa;\n", "            let (x, fx) = (b, fb);\n            b = c;\n            fb = fc;\n            c = x;\n            fc = fx;\n            a = x;\n            fa = fx;\n"))
same("c30-iv", "C30", (IV, "    if vols.len() > 1 {\n        return Err(qm::Error::new(\"Vol surface is not unambiguously defined\"))\n    }\n    for (instrument, _) in vols {\n        return Ok(instrument.id().to_string())\n    }\n\n    Err(qm::Error::new(\"No vol surface to solve for\"))", "    if vols.is_empty() {\n        return Err(qm::Error::new(\"No vol surface to solve for\"))\n    }\n    if vols.len() != 1 {\n        return Err(qm::Error::new(\"Vol surface is not unambiguously defined\"))\n    }\n    Ok(vols.keys().next().unwrap().id().to_string())"))
bug("c31-one-figure", "C31", (DG, "if !approx_eq(self.delta, other.delta, tol.delta) {", "if !approx_eq(self.delta, other.delta, tol.gamma) {"))
bug("c31-length", "C31", (DG, "        if self.results.len() != other.results.len() {\n            write!(diffs, \"DeltaGammaReport: number of reports {} != {}\", self.results.len(), other.results.len())?;\n        }\n", ""))
bug("c31-missing", "C31", (DG, "                write!(diffs, \"DeltaGammaReport: {} is missing\", id)?;\n", ""))
bug("c31-self", "C31", (DG, "delta_gamma.validate(other_delta_gamma, &tolerances, &id, diffs)?;", "other_delta_gamma.validate(other_delta_gamma, &tolerances, &id, diffs)?; let _ = delta_gamma;"))
bug("c31-type", "C31", (DG, "            write!(diffs, \"DeltaGammaReport: mismatching report {} != {}\", self.get_type_id(), other.get_type_id())?;\n            Ok(())", "            Ok(())"))
bug("c31-approx", "C31", ("src/math/numerics.rs", "    diff.abs() < tolerance", "    diff < tolerance"))
bug("c31-tolorder", "C31", (FA, "ReportTolerances::new(tol_price, tol_ccy_risk, tol_unit_risk);", "ReportTolerances::new(tol_price, tol_unit_risk, tol_ccy_risk);"))
bug("c31-mismatch-ok", "C31", (FA, "    if diffs.is_empty() {", "    if diffs.trim().len() < 2 {"))
same("c31-loop", "C31", (DG, "            if let Some(other_delta_gamma) = other.results.get(id) {\n                delta_gamma.validate(other_delta_gamma, &tolerances, &id, diffs)?;\n            } else {\n                write!(diffs, \"DeltaGammaReport: {} is missing\", id)?;\n            }", "            match other.results.get(id) {\n                None => write!(diffs, \"DeltaGammaReport: {} is absent\", id)?,\n                Some(theirs) => delta_gamma.validate(theirs, &tolerances, &id, diffs)?\n            }"))

DE = "src/core/dedup.rs"
IM = "src/instruments/mod.rs"
SECOND = """        // by swapping in and out of our own member variables, we save the state of the
        // thread-local variable, as well as providing our own state to the serialize
        // functions
        tls_seed.with(|s| {
            swap(&mut *s.borrow_mut(), self);
        });
"""
FIRST = """        tls_seed.with(|s| {
            swap(&mut *s.borrow_mut(), self);
        });

        // a panic"""
LAST = """
        match result {
            Ok(result) => result,
            Err(panic) => resume_unwind(panic)
        }
"""
bug("c04-no-restore", "C04", (DE, SECOND, ""))
bug("c04-restore-mode-only", "C04", (DE, SECOND, "        tls_seed.with(|s| {\n            swap(&mut s.borrow_mut().control, &mut self.control);\n        });\n"))
bug("c04-restore-on-success", "C04", (DE, SECOND, "        if result.is_ok() {\n            tls_seed.with(|s| {\n                swap(&mut *s.borrow_mut(), self);\n            });\n        }\n"))
bug("c04-plain", "C04", (DE, "let result = catch_unwind(AssertUnwindSafe(f));", "let result : Result<Q, Box<::std::any::Any + Send>> = Ok(f());"))
bug("c04-reset", "C04", (DE, SECOND, "        tls_seed.with(|s| {\n            let mut t = s.borrow_mut();\n            t.control = DedupControl::Inline;\n            t.map.clear();\n        });\n"))
bug("c04-read-clears", "C04", (DE, "                tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone()));\n", "                tls_seed.with(|tls| { let mut t = tls.borrow_mut(); t.map.clear(); t.insert(obj.clone()) });\n"))
bug("c04-sticky-inline", "C04", (DE, "            DedupControl::Inline => serialize(serializer),", "            DedupControl::Inline => {\n                tls_seed.with(|tls| tls.borrow_mut().control = DedupControl::Inline);\n                tls_seed.with(|tls| tls.borrow_mut().map.clear());\n                serialize(serializer)\n            }"))
same("c04-guard", "C04 C05", (DE, FIRST, """        struct Undo<'a, T2, R2>(&'static LocalKey<RefCell<Dedup<T2, R2>>>, &'a mut Dedup<T2, R2>)
        where
            T2: InstanceId + Debug + Send + Sync + ?Sized + 'static,
            R2: Deref<Target = T2> + Clone + Send + Sync + 'static,
            Drc<T2, R2>: FromId;
        impl<'a, T2, R2> Drop for Undo<'a, T2, R2>
        where
            T2: InstanceId + Debug + Send + Sync + ?Sized + 'static,
            R2: Deref<Target = T2> + Clone + Send + Sync + 'static,
            Drc<T2, R2>: FromId
        {
            fn drop(&mut self) {
                let own = &mut *self.1;
                self.0.with(|s| swap(&mut *s.borrow_mut(), own));
            }
        }
        tls_seed.with(|s| {
            swap(&mut *s.borrow_mut(), self);
        });
        let _undo = Undo(tls_seed, self);
        f()
        // a panic"""),
     (DE, "        let result = catch_unwind(AssertUnwindSafe(f));\n", ""), (DE, SECOND, ""), (DE, LAST, ""), (DE, "use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};\n", ""))
same("c04-replace", "C04 C05", (DE, SECOND, "        self.exchange(tls_seed);\n"),
     (DE, FIRST, "        self.exchange(tls_seed);\n\n        // a panic"),
     (DE, "    pub fn control(&self) -> &DedupControl { &self.control }", "    fn exchange(&mut self, tls_seed: &'static LocalKey<RefCell<Dedup<T, R>>>) {\n        tls_seed.with(|s| {\n            let mut cell = s.borrow_mut();\n            swap(&mut cell.control, &mut self.control);\n            swap(&mut cell.map, &mut self.map);\n        });\n    }\n\n    pub fn control(&self) -> &DedupControl { &self.control }"))
bug("c05-no-remember", "C05", (DE, "tls.borrow_mut().insert(self.clone()));", "tls.borrow().get(self.0.id()));"))
bug("c05-missing-full", "C05", (DE, "                    Err(S::Error::custom(&format!(\"Unknown id: {}\", id)))", "                    serialize(serializer)"))
bug("c05-read-forgets", "C05", (DE, "                tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone()));\n", ""))
bug("c05-inline-remembers", "C05", (DE, "            DedupControl::Inline => serialize(serializer),", "            DedupControl::Inline => {\n                tls_seed.with(|tls| tls.borrow_mut().insert(self.clone()));\n                serialize(serializer)\n            }"))
bug("c05-error-write", "C05", (DE, "                if !has_key {", "                if !has_key && !id.is_empty() {"))
bug("c05-map-first", "C05", (DE, "        map.insert(id.to_string(), item.clone());", "        map.entry(id.to_string()).or_insert(item.clone());"))
bug("c05-facade-swap", "C05", (FA, "new(instr_dedup, instruments_map)", "new(ccy_dedup, instruments_map)"))
same("c05-match", "C05 C04", (DE, """                let has_key = tls_seed.with(|tls| tls.borrow().contains_key(id));
                if !has_key {
                    Err(S::Error::custom(&format!("Unknown id: {}", id)))
                } else {
                    serializer.serialize_str(id)
                }""", """                match tls_seed.with(|tls| tls.borrow().get(id)) {
                    Some(_) => serializer.serialize_str(id),
                    None => Err(S::Error::custom(&format!("{} has not been supplied", id)))
                }"""))
same("c05-once", "C05 C04", (DE, """                let prev = tls_seed.with(|tls| tls.borrow_mut().insert(self.clone()));
                if let None = prev {
                    serialize(serializer)
                } else {
                    serializer.serialize_str(self.0.id())
                }""", """                let id = self.0.id();
                let seen = tls_seed.with(|tls| tls.borrow().contains_key(id));
                if seen {
                    return serializer.serialize_str(id)
                }
                tls_seed.with(|tls| tls.borrow_mut().insert(self.clone()));
                serialize(serializer)"""))
same("c05-read", "C05 C04", (DE, """            DedupControl::Inline => {
                deserialize(deserializer)
            },
""", ""), (DE, """            DedupControl::ErrorIfMissing => {
                deserialize(deserializer)
            },""", """            DedupControl::Inline | DedupControl::ErrorIfMissing => deserialize(deserializer),"""),
  (DE, """                let obj = deserialize(deserializer)?;
                tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone()));
                Ok(obj)""", """                deserialize(deserializer).map(|obj| {
                    tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone()));
                    obj
                })"""))

DM = "src/dates/mod.rs"
FX = "src/data/fixings.rs"
IN = "src/math/interpolation.rs"
VS = "src/data/volsurface.rs"
bug("c03-short", "C03", (DM, "if ymd.len() != 3 {", "if ymd.len() > 3 {"))
bug("c03-long", "C03", (DM, "if ymd.len() != 3 {", "if ymd.len() < 3 {"))
bug("c03-unwrap", "C03", (DM, "        match Date::from_str(&s) {\n            Ok(date) => Ok(date),\n            Err(e) => Err(Error::custom(e.to_string()))\n        }", "        if s.is_empty() {\n            return Err(Error::custom(\"empty\"))\n        }\n        Ok(Date::from_str(&s).unwrap())"))
bug("c03-invalid", "C03", (DM, "if !result.is_valid() || result.ymd() != (y, m, d) {", "if result.ymd() != (y, m, d) {"))
bug("c03-rollover", "C03", (DM, "if !result.is_valid() || result.ymd() != (y, m, d) {", "if !result.is_valid() {"))
bug("c03-overflow", "C03", (DM, "if y < 0 || y > 9999 || m < 1 || m > 12 || d < 1 || d > 31 {", "if m < 1 || m > 12 || d < 1 || d > 31 {"))
bug("c03-default-part", "C03", (DM, "                Err(_e) => return Err(qm::Error::new(s))", "                Err(_e) => if i == 2 { 1 } else { return Err(qm::Error::new(s)) }"))
bug("c03-slice", "C03", (DM, "        let ymd: Vec<&str> = s.split(\"-\").collect();", "        if s.len() < 10 {\n            return Err(qm::Error::new(s))\n        }\n        let ymd: Vec<&str> = s[0..10].split(\"-\").collect();"))
bug("c03-spline-one", "C03", (IN, "        if inputs.points.len() < 2 {\n            return Err(D::", "        if inputs.points.len() < 1 {\n            return Err(D::"))
bug("c03-id-unwrap", "C03", (IM, "            if let Some(result) = FromId::from_id(value) {\n                Ok(result)\n            } else {\n                Err(sd::de::Error::invalid_value(sd::de::Unexpected::Str(value), &self))\n            }", "            if value.is_empty() {\n                return Err(sd::de::Error::invalid_value(sd::de::Unexpected::Str(value), &self))\n            }\n            Ok(FromId::from_id(value).expect(\"id must have been supplied\"))"))
bug("c03-held", "C03", (DE, """                let obj = deserialize(deserializer)?;
                tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone()));
                Ok(obj)""", """                tls_seed.with(|tls| {
                    let mut table = tls.borrow_mut();
                    let obj = deserialize(deserializer)?;
                    table.insert(obj.clone());
                    Ok(obj)
                })"""))
bug("c03-serial-unwrap", "C03", (VS, "        Ok(Qrc::new(Arc::new(FlatVolSurface::deserialize(de)?)))", "        Ok(Qrc::new(Arc::new(FlatVolSurface::deserialize(de).unwrap())))"))
same("c03-while", "C03", (DM, """        for (i, elem) in array.iter_mut().enumerate() {
            *elem = match ymd[i].parse::<i32>() {
                Ok(number) => number,
                Err(_e) => return Err(qm::Error::new(s))
            };
        }
""", """        let mut i = 0;
        while i < 3 {
            match ymd[i].parse::<i32>() {
                Ok(number) => array[i] = number,
                Err(_e) => return Err(qm::Error::new(s))
            }
            i += 1;
        }
"""))
same("c03-order", "C03", (DM, "if y < 0 || y > 9999 || m < 1 || m > 12 || d < 1 || d > 31 {", "if !(m >= 1 && m <= 12) || d > 31 || d <= 0 || y > 2200 || y < 1900 {"))
same("c03-map-err", "C03", (DM, "        match Date::from_str(&s) {\n            Ok(date) => Ok(date),\n            Err(e) => Err(Error::custom(e.to_string()))\n        }", "        Date::from_str(&s).map_err(|e| Error::custom(e.to_string()))"))
same("c03-get", "C03", (DM, "        if ymd.len() != 3 {\n            return Err(qm::Error::new(s))\n        }\n", "        if ymd.len() > 3 {\n            return Err(qm::Error::new(s))\n        }\n"), (DM, "match ymd[i].parse::<i32>() {", "match ymd.get(i).map_or(\"\", |part| *part).parse::<i32>() {"))
same("c03-spline", "C03", (IN, "        if inputs.points.len() < 2 {\n            return Err(D::", "        let n = inputs.points.len();\n        if n == 0 || n == 1 {\n            return Err(D::"))

DV = "src/data/divstream.rs"
BO = "src/instruments/bonds.rs"
DG = "src/risk/deltagamma.rs"
VD = "src/data/voldecorators.rs"
OP = "src/instruments/options.rs"
BV = "src/data/bumpvol.rs"
bug("c02-skip", "C02", (VD, "    bump: f64,\n    vol_time_floor: f64\n", "    bump: f64,\n    #[serde(skip)]\n    vol_time_floor: f64\n"))
bug("c02-default", "C02", (DV, "    relative: f64,\n    ex_date: Date,", "    #[serde(default)]\n    relative: f64,\n    ex_date: Date,"))
bug("c02-skip-if", "C02", (DV, "    relative: f64,\n    ex_date: Date,", "    #[serde(default, skip_serializing_if = \"is_zero\")]\n    relative: f64,\n    ex_date: Date,"), (DV, "impl Dividend {", "fn is_zero(x: &f64) -> bool { *x < 1e-6 }\n\nimpl Dividend {"))
bug("c02-rename-one-side", "C02", (DG, "    delta: f64,\n    gamma: f64\n}\n\nimpl DeltaGamma {", "    #[serde(rename(deserialize = \"gamma\"))]\n    delta: f64,\n    #[serde(rename(deserialize = \"delta\"))]\n    gamma: f64\n}\n\nimpl DeltaGamma {"))
bug("c02-flat-clash", "C02", (OP, "    vanilla: VanillaOption,\n    strike: f64,\n}", "    vanilla: VanillaOption,\n    #[serde(rename = \"pay_date\")]\n    strike: f64,\n}"))
bug("c02-swap-linear", "C02", (IN, "Linear::new(&inputs.points, inputs.left, inputs.right)\n            .map_err", "Linear::new(&inputs.points, inputs.right, inputs.left)\n            .map_err"))
bug("c02-date-order", "C02", (DM, 'write!(f, "{:04}-{:02}-{:02}", y, m, d)', 'write!(f, "{:04}-{:02}-{:02}", y, d, m)'))
bug("c02-date-mark", "C02", (DM, 'write!(f, "{:04}-{:02}-{:02}", y, m, d)', 'write!(f, "{:04}/{:02}/{:02}", y, m, d)'))
bug("c02-date-pad", "C02", (DM, 'write!(f, "{:04}-{:02}-{:02}", y, m, d)', 'write!(f, "{:04}-{:02}-{:2}", y, m, d)'))
bug("c02-variant", "C02", (BV, "    TimeScaled { size: f64, floor: f64 },", "    TimeScaled { size: f64, #[serde(default)] floor: f64 },"))
same("c02-rename", "C02", (DG, "    delta: f64,\n    gamma: f64\n}\n\nimpl DeltaGamma {", "    #[serde(rename = \"g\")]\n    delta: f64,\n    #[serde(rename = \"d\")]\n    gamma: f64\n}\n\nimpl DeltaGamma {"))
same("c02-field-order", "C02", (BO, "    ex_date: DateTime,\n    payment_date: Date,\n    settlement: RcDateRule\n}", "    payment_date: Date,\n    ex_date: DateTime,\n    settlement: RcDateRule\n}"))
same("c02-date-named", "C02", (DM, 'write!(f, "{:04}-{:02}-{:02}", y, m, d)', 'write!(f, "{year:04}-{month:02}-{day:02}", day = d, month = m, year = y)'))
same("c02-collect", "C02", (FX, "        serializer.collect_seq(map)", "        serializer.collect_seq(map.iter())"))
bug("c02-read-through", "C02", (DV, "    relative: f64,\n    ex_date: Date,", "    #[serde(deserialize_with = \"capped\")]\n    relative: f64,\n    ex_date: Date,"), (DV, "impl Dividend {", "fn capped<'de, D>(d: D) -> Result<f64, D::Error> where D: ::serde::Deserializer<'de> {\n    let x = <f64 as ::serde::Deserialize>::deserialize(d)?;\n    Ok(x.min(1.0))\n}\n\nimpl Dividend {"))
bug("c02-write-through", "C02", (DV, "    relative: f64,\n    ex_date: Date,", "    #[serde(serialize_with = \"rounded\")]\n    relative: f64,\n    ex_date: Date,"), (DV, "impl Dividend {", "fn rounded<S>(x: &f64, s: S) -> Result<S::Ok, S::Error> where S: ::serde::Serializer {\n    s.serialize_f64((x * 1e8).round() / 1e8)\n}\n\nimpl Dividend {"))
same("c02-through", "C02", (DV, "    relative: f64,\n    ex_date: Date,", "    #[serde(serialize_with = \"plain\")]\n    relative: f64,\n    ex_date: Date,"), (DV, "impl Dividend {", "fn plain<S>(x: &f64, s: S) -> Result<S::Ok, S::Error> where S: ::serde::Serializer {\n    s.serialize_f64(*x)\n}\n\nimpl Dividend {"))
bug("c02-spline-part", "C02", (IN, "        self.inputs.serialize(serializer)", "        CubicSplineInputs { left: self.inputs.left, right: self.inputs.left, points: self.inputs.points.clone() }.serialize(serializer)"), (IN, "impl<T> Serialize for CubicSpline<T> where T : Interpolable<T> + Serialize {", "impl<T> Serialize for CubicSpline<T> where T : Interpolable<T> + Serialize + Clone {"))
bug("c02-vbp-base", "C02", (VS, "        let input = VolByProbabilityInput::<FlatSmile>::deserialize(de)?;\n", "        let mut input = VolByProbabilityInput::<FlatSmile>::deserialize(de)?;\n        input.base_date = input.smiles[0].0;\n"))
same("c02-spline-copy", "C02", (IN, "        self.inputs.serialize(serializer)", "        CubicSplineInputs { left: self.inputs.left, right: self.inputs.right, points: self.inputs.points.clone() }.serialize(serializer)"), (IN, "impl<T> Serialize for CubicSpline<T> where T : Interpolable<T> + Serialize {", "impl<T> Serialize for CubicSpline<T> where T : Interpolable<T> + Serialize + Clone {"))

FA = "src/facade/mod.rs"
AS = "src/instruments/assets.rs"
FX = "src/data/fixings.rs"
BT = "src/risk/bumptime.rs"
IM = "src/instruments/mod.rs"
OP = "src/instruments/options.rs"
DG = "src/risk/deltagamma.rs"
VM = "src/data/volsmile.rs"
MC = "src/pricers/montecarlo.rs"
DT = "src/dates/mod.rs"
bug("c20-skip-report", "C20", (FA, "        let report = report_generator.generate(&mut *pricer, &mut *saveable, price)?;\n        reports.push(report);", "        if let Ok(report) = report_generator.generate(&mut *pricer, &mut *saveable, price) {\n            reports.push(report);\n        }"))
bug("c20-default-forward", "C20", (AS, "                *output = fc.forward(date.date())?;", "                *output = fc.forward(date.date()).unwrap_or(0.0);"))
bug("c20-ignore-insert", "C20", (FX, "            fixing_table.insert(fixing.0, fixing_curve)?;", "            let _ = fixing_table.insert(fixing.0, fixing_curve);"))
bug("c20-default-spot", "C20", (BT, "context.spot(id)? }", "context.spot(id).unwrap_or(0.0) }"))
bug("c20-vol-missing", "C20", (C, "            let vol = context.vol_surface(instrument, *vol_hwd, &|| Ok(forward.clone()))?;\n            vol_surfaces.insert(id.clone(), vol);", "            if let Ok(vol) = context.vol_surface(instrument, *vol_hwd, &|| Ok(forward.clone())) {\n                vol_surfaces.insert(id.clone(), vol);\n            }"))
bug("c20-fix-none", "C20", (IM, "if let Some(decomposition) = instrument.fix(fixing_table)? {", "if let Some(decomposition) = instrument.fix(fixing_table).unwrap_or(None) {"))
bug("c20-variance-zero", "C20", (OP, "let variance = vol.forward_variance(from_date, self.expiry_time, strike)?;", "let variance = vol.forward_variance(from_date, self.expiry_time, strike).unwrap_or(0.0);"))
bug("c20-restore", "C20", (DG, "            pricer.as_mut_bumpable().restore(saveable)?;", "            pricer.as_mut_bumpable().restore(saveable).ok();"))
bug("c20-or-else", "C20", (B, "            let var = surface.variance(*obs, atm)?;", "            let var = surface.variance(*obs, atm).or_else(|_| surface.variance(*obs, 100.0))?;"))
bug("c20-continue", "C20", (MC, "               total += weight * mc.mc_price(context)?;", "               match mc.mc_price(context) {\n                   Ok(p) => total += weight * p,\n                   Err(e) => { println!(\"{}\", e); continue }\n               }"))
bug("c20-smile", "C20", (VM, "            volatilities[i] = self.smile.interpolate(strikes[i])?;", "            if let Ok(v) = self.smile.interpolate(strikes[i]) {\n                volatilities[i] = v;\n            }"))
bug("c20-helper", "C20", (AS, "                *output = fc.forward(date.date())?;", "                *output = forward_or_nan(&*fc, date.date());"), (AS, "impl Priceable for Equity {", "fn forward_or_nan(f: &::data::forward::Forward, d: ::dates::Date) -> f64 {\n    match f.forward(d) { Ok(x) => x, Err(_) => ::std::f64::NAN }\n}\n\nimpl Priceable for Equity {"))
bug("c20-break", "C20", (AS, "                *output = fc.forward(date.date())?;", "                match fc.forward(date.date()) { Ok(x) => *output = x, Err(_) => break }"))
same("c20-s-match", "C20", (AS, "                *output = fc.forward(date.date())?;", "                match fc.forward(date.date()) { Ok(x) => *output = x, Err(e) => return Err(e) }"))
same("c20-s-remember", "C20", (AS, "            for (date, output) in dates.iter().zip(out.iter_mut()) {\n                *output = fc.forward(date.date())?;\n            }\n            Ok(())", "            let mut failure = None;\n            for (date, output) in dates.iter().zip(out.iter_mut()) {\n                match fc.forward(date.date()) { Ok(x) => *output = x, Err(e) => { failure = Some(e); break } }\n            }\n            match failure { Some(e) => Err(e), None => Ok(()) }"))
same("c20-s-remember-on", "C20", (AS, "            for (date, output) in dates.iter().zip(out.iter_mut()) {\n                *output = fc.forward(date.date())?;\n            }\n            Ok(())", "            let mut failure = None;\n            for (date, output) in dates.iter().zip(out.iter_mut()) {\n                match fc.forward(date.date()) { Ok(x) => *output = x, Err(e) => { failure = Some(e); } }\n            }\n            match failure { Some(e) => Err(e), None => Ok(()) }"))
same("c20-s-flag", "C20", (AS, "            for (date, output) in dates.iter().zip(out.iter_mut()) {\n                *output = fc.forward(date.date())?;\n            }\n            Ok(())", "            let mut failed = false;\n            for (date, output) in dates.iter().zip(out.iter_mut()) {\n                match fc.forward(date.date()) { Ok(x) => *output = x, Err(_) => { failed = true; } }\n            }\n            if failed { return Err(qm::Error::new(\"no forward\")) }\n            Ok(())"))
same("c20-s-count", "C20", (AS, "            for (date, output) in dates.iter().zip(out.iter_mut()) {\n                *output = fc.forward(date.date())?;\n            }\n            Ok(())", "            let mut failed = 0;\n            for (date, output) in dates.iter().zip(out.iter_mut()) {\n                match fc.forward(date.date()) { Ok(x) => *output = x, Err(_) => { failed += 1; } }\n            }\n            if failed > 0 { return Err(qm::Error::new(\"no forward\")) }\n            Ok(())"))
same("c20-s-collect", "C20", (FA, "    let mut reports = Vec::with_capacity(report_generators.len());\n    for report_generator in report_generators.iter() {\n        let report = report_generator.generate(&mut *pricer, &mut *saveable, price)?;\n        reports.push(report);\n    }\n\n    Ok(reports)", "    report_generators.iter().map(|g| g.generate(&mut *pricer, &mut *saveable, price)).collect()"))
same("c20-s-option", "C20", (AS, "                *output = fc.forward(date.date())?;", "                *output = match fc.forward(date.date()).ok() { Some(x) => x, None => return Err(qm::Error::new(\"no forward\")) };"))
same("c20-s-helper", "C20", (AS, "                *output = fc.forward(date.date())?;", "                *output = forward_maybe(&*fc, date.date()).ok_or_else(|| qm::Error::new(\"no forward\"))?;"), (AS, "impl Priceable for Equity {", "fn forward_maybe(f: &::data::forward::Forward, d: ::dates::Date) -> Option<f64> {\n    f.forward(d).ok()\n}\n\nimpl Priceable for Equity {"))
same("c20-s-and-then", "C20", (FX, "            let fixing_curve = Fixings::new(fixing.0, fixing.1)?;\n            fixing_table.insert(fixing.0, fixing_curve)?;", "            Fixings::new(fixing.0, fixing.1).and_then(|c| fixing_table.insert(fixing.0, c))?;"))
same("c20-s-tryfold", "C20", (MC, "        let mut total = 0.0;\n        for &(weight, ref instrument) in self.instruments.iter() {\n            if let Some(mc) = instrument.as_mc_priceable() {\n               let context = self.model.as_mc_context();\n               total += weight * mc.mc_price(context)?;\n            }\n        }\n", "        let total = self.instruments.iter().try_fold(0.0, |t, &(weight, ref instrument)| match instrument.as_mc_priceable() {\n            Some(mc) => mc.mc_price(self.model.as_mc_context()).map(|p| t + weight * p),\n            None => Ok(t)\n        })?;\n"))
same("c20-s-unwrap", "C20", (AS, "                *output = fc.forward(date.date())?;", "                let f = fc.forward(date.date());\n                if f.is_err() { return f.map(|_| ()) }\n                *output = f.unwrap();"))
bug("c20-filter-map", "C20", (FA, "    let mut reports = Vec::with_capacity(report_generators.len());\n    for report_generator in report_generators.iter() {\n        let report = report_generator.generate(&mut *pricer, &mut *saveable, price)?;\n        reports.push(report);\n    }\n\n    Ok(reports)", "    Ok(report_generators.iter().filter_map(|g| g.generate(&mut *pricer, &mut *saveable, price).ok()).collect())"))

CAL = "src/dates/calendar.rs"
same("cal-wk-step-loop", "C42", (CAL, """        let week_day = adj_from.day_of_week();
        let calendar_days = if step > 0 {
            // requested days plus two for each complete week
            step + ((week_day + step) / 5) * 2
        } else {
            // requested days plus two for each complete week
            // (use 4 - week_day as the start, to reverse the week days)
            step - ((4 - week_day - step) / 5) * 2
        };
        let to = adj_from + calendar_days;

        // Sort out""", """        let mut to = adj_from;
        let dir = if step > 0 { 1 } else { -1 };
        for _ in 0..step.abs() {
            to = slip_to_next_weekday(to + dir, step > 0);
        }

        // Sort out"""))
same("cal-wk-step-whole", "C42", (CAL, """        let week_day = adj_from.day_of_week();
        let calendar_days = if step > 0 {
            // requested days plus two for each complete week
            step + ((week_day + step) / 5) * 2
        } else {
            // requested days plus two for each complete week
            // (use 4 - week_day as the start, to reverse the week days)
            step - ((4 - week_day - step) / 5) * 2
        };
        let to = adj_from + calendar_days;

        // Sort out""", """        let week_day = adj_from.day_of_week();
        let weeks = step / 5;
        let days = step % 5;
        let mut to = adj_from + weeks * 7 + days;
        if week_day + days > 4 { to += 2; }
        if week_day + days < 0 { to -= 2; }

        // Sort out"""))
same("cal-hol-step-simple", "C42", (CAL, """        // Step the required number of business days. We know that for every
        // five business days we have to add two weekend days.
        let week_day = adj_from.day_of_week();
        let calendar_days = if step > 0 {
            // requested days plus two for each complete week
            step + ((week_day + step) / 5) * 2
        } else {
            // requested days plus two for each complete week
            // (use 4 - week_day as the start, to reverse the week days)
            step - ((4 - week_day - step) / 5) * 2
        };
        let to = adj_from + calendar_days;

        // We have""", """        if step > 0 {
            let mut date = adj_from;
            for _ in 0..step {
                date = self.slip_to_next(date + 1, 1);
            }
            return date;
        }
        let week_day = adj_from.day_of_week();
        let calendar_days = if step > 0 {
            step + ((week_day + step) / 5) * 2
        } else {
            step - ((4 - week_day - step) / 5) * 2
        };
        let to = adj_from + calendar_days;

        // We have"""))
same("cal-hol-iter", "C42", (CAL, """        match self.holidays.binary_search(&from) {
            Ok(offset) => (offset, true),
            Err(offset) => (offset, false)
        }""", """        let offset = self.holidays.iter().take_while(|d| **d < from).count();
        (offset, offset < self.holidays.len() && self.holidays[offset] == from)"""))
same("cal-hol-filter", "C42", (CAL, """        let (start, start_is_holiday) = self.remaining_holidays(from);
        let (end, _) = self.remaining_holidays(to);
        let count = end as i32 - start as i32;

        // subtract holidays at the start of the range, if any (the end is
        // not included anyway)
        if start_is_holiday {
            count - 1
        } else {
            count
        }""", """        self.holidays.iter().filter(|h| **h > from && **h < to).count() as i32"""))
same("cal-hol-loop", "C42", (CAL, """            loop {
                if self.is_holiday(date) {
                    date += 1;
                } else if extra > 0 {
                    date += 1;
                    extra -= 1;
                } else {
                    return date
                }
            } """, """            while self.is_holiday(date) || extra > 0 {
                if !self.is_holiday(date) {
                    extra -= 1;
                }
                date = date + 1;
            }
            date"""))
same("cal-hol-contains", "C42", (CAL, """        let (_, holiday) = self.remaining_holidays(date);
        holiday""", """        self.holidays.contains(&date)"""))
same("cal-wk-count-day", "C42", (CAL, """        // days from whole weeks
        let whole_days = adj_to - adj_from;
        let whole_weeks = whole_days / 7;
        let week_days = whole_weeks * 5;

        // days from partial weeks
        let diff = adj_to.day_of_week() - adj_from.day_of_week();
        let partial_week_days = if diff >= 0 { diff } else { 5 + diff };

        // corrections""", """        let mut week_days = 0;
        let mut day = adj_from;
        while day < adj_to {
            if day.day_of_week() < 5 { week_days += 1; }
            day += 1;
        }
        let partial_week_days = 0;

        // corrections"""))

FW = "src/data/forward.rs"
DV = "src/data/divstream.rs"
same("dv-fwd-inline", "C45 C26 C27", (FW, """        let growth = (self.base_log_discount + log_div_yield - log_df).exp();

        // return the forward
        Ok((self.reference_spot - divs) * growth)""", """        let exponent = log_div_yield + (self.base_log_discount - log_df);
        Ok(self.reference_spot * exponent.exp() - divs * exponent.exp())"""))
same("dv-fwd-reorder", "C45 C26 C27", (FW, """        // add up any dividends before and including the given date
        let divs = self.bootstrap.discounted_sum_from_base(date)?;

        // calculate the settlement period
        let pay_date = self.settlement.apply(date);
""", """        let pay_date = self.settlement.apply(date);
"""), (FW, """        let growth = (self.base_log_discount + log_div_yield - log_df).exp();
""", """        let growth = (self.base_log_discount + log_div_yield - log_df).exp();
        let divs = self.bootstrap.discounted_sum_from_base(date)?;
"""))
same("dv-loop-index", "C45 C26", (DV, """        for dividend in div_stream.dividends.iter() {
            let ex_date = dividend.ex_date;""", """        for i in 0..n {
            let dividend = &div_stream.dividends[i];
            let ex_date = dividend.ex_date;"""))
same("dv-helper", "C45 C26", (DV, """        // we may have a final dividend accumulation to add
        if prev_ex_date > base_date {
            accumulation.push(DividendAccumulation { 
                ex_date : prev_ex_date,
                undiscounted_sum : undiscounted_sum, 
                discounted_sum : discounted_sum,
                discounted_cash : discounted_cash,
                discounted_cash_remaining : NAN });
        } """, """        if prev_ex_date > base_date {
            accumulation.push(DividendAccumulation::pending(prev_ex_date, undiscounted_sum, discounted_sum, discounted_cash));
        } """), (DV, """pub struct DividendBootstrap {""", """impl DividendAccumulation {
    fn pending(ex_date: Date, undiscounted_sum: f64, discounted_sum: f64, discounted_cash: f64) -> DividendAccumulation {
        DividendAccumulation { ex_date: ex_date, undiscounted_sum: undiscounted_sum, discounted_sum: discounted_sum,
            discounted_cash: discounted_cash, discounted_cash_remaining: NAN }
    }
}

pub struct DividendBootstrap {"""))
same("dv-separate-relative", "C45 C26", (DV, """        let mut discounted_sum = 0.0;
""", """        let mut discounted_relative = 0.0;
"""), (DV, """                    discounted_sum : discounted_sum,
""", """                    discounted_sum : discounted_cash + discounted_relative,
"""), (DV, "prev_discounted_sum = discounted_sum;", "prev_discounted_sum = discounted_cash + discounted_relative;"), (DV, "            discounted_sum += cash_pv;\n", ""),
     (DV, "discounted_sum += relative_amount * df;", "discounted_relative += relative_amount * df;"), (DV, """                discounted_sum : discounted_sum,
""", """                discounted_sum : discounted_cash + discounted_relative,
"""))
same("dv-forward-walk", "C45 C26", (DV, """        if !accumulation.is_empty() {
            let final_discounted_cash = accumulation.last().unwrap().
                discounted_cash;
            for acc in accumulation.iter_mut().rev() {""", """        if let Some(final_discounted_cash) = accumulation.last().map(|a| a.discounted_cash) {
            for acc in accumulation.iter_mut() {"""))
same("dv-lookup-helper", "C45 C26 C27", (DV, """        // try to find this dividend ex date
        match self.accumulation.binary_search_by(
            |p| p.ex_date.cmp(&to)) {

            // if we found it, return the discounted cash at this div
            Ok(i) => Ok(self.accumulation[i].discounted_sum),

            // if we missed and it was before the base date, return zero
            Err(i) => if i == 0 { Ok(0.0) } else {

                // otherwise, return the discounted cash at the prev div
                Ok(self.accumulation[i-1].discounted_sum)
            }
        }""", """        let upto = match self.accumulation.binary_search_by(|p| p.ex_date.cmp(&to)) {
            Ok(i) => i + 1,
            Err(i) => i
        };
        if upto > 0 { Ok(self.accumulation[upto - 1].discounted_sum) } else { Ok(0.0) }"""))
same("dv-filter", "C45 C26", (DV, """        for div in dividends.iter() {
            if div.cash != 0.0 {
                last_cash_ex_date = div.ex_date;
            }
        }""", """        for div in dividends.iter().filter(|d| d.cash != 0.0) {
            last_cash_ex_date = div.ex_date;
        }"""))

"""Bugs in forwards and dividend streams: (name, properties, file, old text, new text, ...)."""
F = "src/data/forward.rs"
V = "src/data/divstream.rs"
B = [
("dv-fwd-pay", "C45", F, "let log_df = log_discount_with_borrow(&*self.rate, &*self.borrow, pay_date)?;", "let log_df = log_discount_with_borrow(&*self.rate, &*self.borrow, date)?;"),
("dv-fwd-divs-pay", "C45", F, "let divs = self.bootstrap.discounted_sum_from_base(date)?; // calculate the settlement period let pay_date = self.settlement.apply(date);", "let pay_date = self.settlement.apply(date); let divs = self.bootstrap.discounted_sum_from_base(pay_date)?;"),
("dv-fwd-yield-date", "C45", F, "self.div_yield.rt(pay_date)?;", "self.div_yield.rt(date)?;"),
("dv-fwd-floor", "C45", F, "Ok((self.reference_spot - divs) * growth)", "Ok((self.reference_spot - divs).max(0.0) * growth)"),
("dv-fwd-order", "C45", F, "Ok((self.reference_spot - divs) * growth)", "Ok(self.reference_spot * growth - divs)"),
("dv-new-spotdate", "C45", F, "let spot_date = settlement.apply(base_date);", "let spot_date = settlement.apply(base_date).max(rate.base_date());"),
("dv-new-ref", "C45", F, "let reference_spot = spot * spot_df;", "let reference_spot = if spot_date == base_date { spot } else { spot / spot_df };"),
("dv-new-boot-spot", "C45", F, "reference_spot, base_date, high_water_mark)?;", "spot, base_date, high_water_mark)?;"),
("dv-new-base", "C45", F, "base_log_discount: base_log_discount })", "base_log_discount: 0.0 })"),
("dv-df-base", "C45", F, "Ok((log_discount - base_qt_minus_rt).exp())", "Ok((log_discount + base_qt_minus_rt).exp())"),
("dv-log-borrow", "C45", F, "let qt = borrow.rt(date)?;", "let qt = if borrow.base_date() > date { 0.0 } else { borrow.rt(date)? };"),
("dv-fixed", "C45", F, "self.bootstrap.discounted_cash_divs_after(date)", "self.bootstrap.discounted_cash_divs_after(self.settlement.apply(date))"),
("dv-last-cash", "C45", V, "if div.cash != 0.0 { last_cash_ex_date = div.ex_date; }", "if div.cash > 0.0 { last_cash_ex_date = div.ex_date; }"),
("dv-last-cash-pay", "C45", V, "if div.cash != 0.0 { last_cash_ex_date = div.ex_date; }", "if div.relative == 0.0 { last_cash_ex_date = div.ex_date; }"),
("dv-base-date", "C45", V, "if ex_date <= base_date {", "if ex_date < base_date {"),
("dv-order", "C45", V, 'return Err(qm::Error::new("Dividends not in ex date order"))', "continue;"),
("dv-late", "C45", V, "} else if ex_date > bootstrap_to {", "} else if ex_date >= bootstrap_to {"),
("dv-late2", "C45", V, "} else if ex_date > bootstrap_to {", "} else if ex_date > high_water_mark {"),
("dv-df-ex", "C45", V, "let df = discount_with_borrow(rate, borrow, base_qt_rt, dividend.pay_date)?;", "let df = discount_with_borrow(rate, borrow, base_qt_rt, ex_date)?;"),
("dv-undisc", "C45", V, "undiscounted_sum += cash;", "undiscounted_sum += cash_pv;"),
("dv-prev", "C45", V, "let fwd = (spot - prev_discounted_sum) * growth;", "let fwd = (spot - discounted_sum) * growth;"),
("dv-prev2", "C45", V, "prev_ex_date = ex_date; prev_discounted_sum = discounted_sum;", "prev_ex_date = ex_date; if discounted_cash > 0.0 { prev_discounted_sum = discounted_sum; }"),
("dv-growth", "C45", V, "base_qt_rt, ex_date)?; let fwd", "base_qt_rt, dividend.pay_date)?; let fwd"),
("dv-rel-cash", "C45", V, "discounted_sum += relative_amount * df;", "discounted_sum += relative_amount * df; discounted_cash += relative_amount * df;"),
("dv-rel-df", "C45", V, "discounted_sum += relative_amount * df;", "discounted_sum += relative_amount / growth;"),
("dv-rel-neg", "C45", V, "if relative != 0.0 {", "if relative > 0.0 {"),
("dv-final", "C45", V, "if prev_ex_date > base_date {", "if prev_ex_date > base_date && prev_ex_date <= high_water_mark {"),
("dv-remaining", "C45", V, "final_discounted_cash - acc.discounted_cash;", "final_discounted_cash - acc.discounted_sum;"),
("dv-total", "C45", V, "accumulation.last().unwrap(). discounted_cash;", "accumulation.last().unwrap(). discounted_sum;"),
("dv-hwm", "C45", V, "high_water_mark: bootstrap_to })", "high_water_mark: high_water_mark })"),
("dv-overlap", "C45", V, "if !div_stream.div_yield.is_zero() && div_stream.dividends[n-1].ex_date()", "if !div_stream.div_yield.is_zero() && div_stream.dividends[0].ex_date()"),
("dv-look-miss", "C45", V, "Ok(self.accumulation[i-1].discounted_sum)", "Ok(self.accumulation[i-1].discounted_cash)"),
("dv-look-hit", "C45", V, "Ok(i) => Ok(self.accumulation[i].discounted_sum),", "Ok(i) => Ok(self.accumulation[if i > 0 { i - 1 } else { i }].discounted_sum),"),
("dv-look-un", "C45", V, "Ok(i) => Ok(self.accumulation[i].undiscounted_sum),", "Ok(i) => Ok(self.accumulation[i].discounted_sum),"),
("dv-look-hwm", "C45", V, "pub fn discounted_sum_from_base(&self, to: Date) -> Result<f64, qm::Error> { if to > self.high_water_mark {", "pub fn discounted_sum_from_base(&self, to: Date) -> Result<f64, qm::Error> { if to > self.high_water_mark && !self.accumulation.is_empty() {"),
("dv-period", "C45", V, "let sum_from = self.discounted_sum_from_base(from)?;", "let sum_from = self.discounted_sum_from_base(from + 1)?;"),
("dv-period-abs", "C45", V, "let sum_to = self.undiscounted_sum_from_base(to)?; Ok(sum_to - sum_from)", "let sum_to = self.undiscounted_sum_from_base(to)?; Ok((sum_to - sum_from).max(0.0))"),
]

"""Bugs in counting and stepping business days: (name, properties, file, old text, new text, ...)."""
C = "src/dates/calendar.rs"
R = "src/dates/rules.rs"
EV = "impl Calendar for EveryDayCalendar"
B = [
("cal-all-count", "C42", C, "let whole_days = (to - from) as f64; whole_days + to_fraction - from_fraction", "let whole_days = (to - from) as f64; whole_days + (to_fraction - from_fraction).max(0.0)"),
("cal-all-step", "C42", C, "fn step(&self, from: Date, step: i32, _slip_forward: bool) -> Date { from + step }", "fn step(&self, from: Date, step: i32, slip_forward: bool) -> Date { if slip_forward { from + step.abs() } else { from + step } }"),
("cal-wk-holiday", "C42", C, "fn is_holiday(&self, date: Date) -> bool { date.day_of_week() > 4 }", "fn is_holiday(&self, date: Date) -> bool { date.day_of_week() == 5 || date.day_of_week() > 5 && date.ymd().0 < 2050 }"),
("cal-wk-count-slip", "C42", C, "let adj_to = slip_to_next_weekday(to, false);", "let adj_to = slip_to_next_weekday(to, to < from);"),
("cal-wk-count-diff", "C42", C, "let partial_week_days = if diff >= 0 { diff } else { 5 + diff }; // corrections at the ends if the fractions are not one let from_is_holiday = from.day_of_week() > 4;", "let partial_week_days = if diff >= 0 { diff } else { 7 + diff }; let from_is_holiday = from.day_of_week() > 4;"),
("cal-wk-count-end", "C42", C, "let to_is_holiday = to.day_of_week() > 4;", "let to_is_holiday = to.day_of_week() > 5;"),
("cal-wk-count-start", "C42", C, "let from_is_holiday = from.day_of_week() > 4;", "let from_is_holiday = from.day_of_week() == 6;"),
("cal-wk-step-dir", "C42", C, "let adj_from = slip_to_next_weekday(from, slip_forward); if step == 0 {", "let adj_from = slip_to_next_weekday(from, slip_forward || step > 0); if step == 0 {"),
("cal-wk-slip-back", "C42", C, "return from + 4 - week_day // preceding Friday", "return from - 2"),
("cal-hol-weekend", "C42", C, "if date.day_of_week() > 4 { return true }", "if date.day_of_week() > 4 && !self.holidays.is_empty() { return true }"),
("cal-hol-search2", "C42", C, "Ok(offset) => (offset, true), Err(offset) => (offset, false)", "Ok(offset) => (offset + 1, true), Err(offset) => (offset, false)"),
("cal-hol-start", "C42", C, "if start_is_holiday { count - 1 } else { count }", "if start_is_holiday { count } else { count }"),
("cal-hol-count-hol", "C42", C, "let to_is_holiday = self.is_holiday(to);", "let to_is_holiday = to.day_of_week() > 4;"),
("cal-hol-slip", "C42", C, "let adj_to = self.slip_to_next(to, -1);", "let adj_to = slip_to_next_weekday(to, false);"),
("cal-hol-holcount", "C42", C, "let holiday_count = self.count_holidays(adj_from, adj_to);", "let holiday_count = self.count_holidays(from, adj_to);"),
("cal-hol-step-fwd", "C42", C, "let mut extra = self.count_holidays(adj_from, to) + weekend_days;", "let mut extra = self.count_holidays(from, to) + weekend_days;"),
("cal-hol-step-zero", "C42", C, "let adj_from = self.slip_to_next(from, direction); if step == 0 {", "let adj_from = self.slip_to_next(from, direction); if step == 0 || adj_from != from && step == 1 {"),
("cal-hol-new", "C42", C, "holidays: holidays.to_vec() }", "holidays: holidays.iter().cloned().filter(|d| d.ymd().0 >= 1970).collect() }"),
("cal-vol-weight", "C42", C, "business_days * (1.0 - self.holiday_weight) + all_days * self.holiday_weight", "business_days + (all_days - business_days).floor() * self.holiday_weight"),
("cal-vol-basis", "C42", C, "+ 365.0 * self.holiday_weight", "+ 360.0 * self.holiday_weight"),
("cal-vol-dayweight", "C42", C, "if self.is_holiday(date) { self.holiday_weight } else { 1.0 }", "if self.is_holiday(date) { self.holiday_weight } else { 1.0 - self.holiday_weight }"),
("cal-vol-order", "C42", C, "// count the business days let business_days", "if from == to { return 0.0 } let business_days"),
("cal-vol-fraction", "C42", C, "from, from_fraction, to, to_fraction); // count the calendar days", "from, 0.0, to, to_fraction);"),
("cal-vol-step", "C42", C, "self.step_partial(from, step as f64, slip_forward)", "self.step_partial(from, step as f64, step >= 0)"),
("cal-dayweight", "C42", C, "if self.is_holiday(date) { 0.0 } else { 1.0 }", "if self.is_holiday(date + 1) { 0.0 } else { 1.0 }"),
("cal-years", "C42", C, "let days = self.count_business_days(from.date(), from.day_fraction(), to.date(), to.day_fraction());", "let days = self.count_business_days(from.date(), 0.0, to.date(), 0.0);"),
("cal-round", "C42", C, "self.step(from, step.round() as i32, slip_forward) }", "self.step(from, step as i32, slip_forward) }"),
("rule-back", "C42", R, "step: -(step as i32), slip_forward: false", "step: -(step as i32), slip_forward: true"),
("rule-prev", "C42", R, "step: 0, slip_forward: false", "step: -1, slip_forward: false"),
("rule-apply", "C42", R, "self.calendar.step(date, self.step, self.slip_forward)", "self.calendar.step(date, self.step, self.step >= 0)"),
("rule-modified", "C42", R, "if m2 == m1 { forward", "if m2 >= m1 { forward"),
("rule-modified-day", "C42", R, "self.calendar.step(date, 0, false) }", "self.calendar.step(date, -1, false) }"),
("cal-hol-linear", "C42", C, "match self.holidays.binary_search(&from) { Ok(offset) => (offset, true), Err(offset) => (offset, false) }", "let offset = self.holidays.iter().filter(|d| **d < from).count(); (offset, offset + 1 < self.holidays.len() && self.holidays[offset] == from)"),
("cal-hol-wkday", "C42", C, "let calendar_days = if step > 0 { // requested days plus two for each complete week step + ((week_day + step) / 5) * 2 } else { // requested days plus two for each complete week // (use 4 - week_day as the start, to reverse the week days) step - ((4 - week_day - step) / 5) * 2 }; let to = adj_from + calendar_days; // We have", "let calendar_days = if step > 0 { step + ((week_day + step) / 5) * 2 } else { step - ((5 - week_day - step) / 5) * 2 }; let to = adj_from + calendar_days; // We have"),
]

"""Preconditions of constructors: (name, properties, file, old text, new text, ...); SAME: rewritten, same behaviour."""
B, SAME = [], []


def bug(name, props, *reps):
    B.append((name, props) + tuple(x for r in reps for x in r))


def same(name, props, *reps):
    SAME.append((name, props) + tuple(x for r in reps for x in r))


I = "src/math/interpolation.rs"
VS = "src/data/volsurface.rs"
DT = "src/dates/datetime.rs"
FX = "src/data/fixings.rs"
CV = "src/data/curves.rs"
SM = "src/data/volsmile.rs"

bug("pc-empty", "C32", (I, '''    if points.is_empty() {
        return Err(qm::Error::new("At least one point must be supplied"))
    }
''', ""))
bug("pc-tol-neg", "C32", (I, "let tolerance = 1e-12;", "let tolerance = -1e-12;"))
bug("pc-same", "C32", (I, "if !(p.interp_diff(point.0) > tolerance) {", "if !(p.interp_diff(point.0) >= 0.0) {"))
bug("pc-abs", "C32", (I, "if !(p.interp_diff(point.0) > tolerance) {", "if !(p.interp_diff(point.0).abs() > tolerance) {"))
bug("pc-back", "C32", (I, "if !(p.interp_diff(point.0) > tolerance) {", "if !(point.0.interp_diff(p) > tolerance) {"))
bug("pc-first", "C32", (I, "        prev = Some(point.0);\n", "        if prev.is_none() { prev = Some(point.0); }\n"))
bug("pc-skip1", "C32", (I, "    for point in points {\n        if let Some(p) = prev {", "    for point in points.iter().skip(1) {\n        if let Some(p) = prev {"))
bug("pc-last", "C32", (I, "    for point in points {\n        if let Some(p) = prev {", "    for point in points[..points.len() - 1].iter() {\n        if let Some(p) = prev {"))
bug("pc-two", "C32", (I, "    if points.is_empty() {\n        return Err(qm::Error::new(\"At least", "    if points.len() == 2 { return Ok(()) }\n    if points.is_empty() {\n        return Err(qm::Error::new(\"At least"))
bug("pc-lin", "C32", (I, "        validate_abscissae(&points)?;\n        Ok(Linear {", "        if points.len() > 2 { validate_abscissae(&points)?; }\n        Ok(Linear {"))
bug("pc-cs", "C32", (I, "        validate_abscissae(&points)?;\n\n        let mut second_deriv", "        if left.is_natural() { validate_abscissae(&points)?; }\n\n        let mut second_deriv"))
bug("pc-sort", "C32", (I, "        validate_abscissae(&points)?;\n        Ok(Linear {", "        if validate_abscissae(&points).is_err() && points.is_empty() { return Err(qm::Error::new(\"no points\")) }\n        Ok(Linear {"))
bug("pc-vs", "C32", (VS, '''        if n == 0 {
            return Err(qm::Error::new("Cannot construct vol surface. \\
                No smiles supplied"))
        }
''', ""))
bug("pc-frac-hi", "C32", (DT, "assert!(day_fraction >= 0.0 && day_fraction < 1.0);", "assert!(day_fraction >= 0.0 && day_fraction <= 1.0);"))
bug("pc-frac-or", "C32", (DT, "assert!(day_fraction >= 0.0 && day_fraction < 1.0);", "assert!(day_fraction >= 0.0 || day_fraction < 1.0);"))
bug("pc-frac-debug", "C32", (DT, "assert!(day_fraction >= 0.0 && day_fraction < 1.0);", "assert!(day_fraction < 1.0);"))
bug("pc-frac-clamp", "C32", (DT, "        assert!(day_fraction >= 0.0 && day_fraction < 1.0);\n", "        let day_fraction = if day_fraction > 1.0 { 0.0 } else { day_fraction.abs() };\n"))
bug("pc-fix-dup", "C32 C14", (FX, "            if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) {", "            if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1).filter(|v| *v != fixing.1) {"))
bug("pc-pub", "C32", (DT, "    date: Date,\n    day_fraction: f64", "    pub date: Date,\n    pub day_fraction: f64"))
same("pc-s-loop", "C32", (I, '''    let mut prev: Option<T> = None;
    for point in points {
        if let Some(p) = prev {

            // the comparison with tolerance below is carefully written
            // to also fail if the abscissa of either prev or point is NaN.
            if !(p.interp_diff(point.0) > tolerance) {
                return Err(qm::Error::new("Points must be strictly \\
                    monotonic increasing and not NaN"))  
            }
        }
        prev = Some(point.0);
    }
    Ok(())''', '''    let sorted = points.windows(2).all(|w| w[0].0.interp_diff(w[1].0) > tolerance);
    if !sorted {
        return Err(qm::Error::new("Points must be strictly monotonic increasing and not NaN"))
    }
    Ok(())'''))
same("pc-s-index", "C32", (I, '''    let mut prev: Option<T> = None;
    for point in points {
        if let Some(p) = prev {

            // the comparison with tolerance below is carefully written
            // to also fail if the abscissa of either prev or point is NaN.
            if !(p.interp_diff(point.0) > tolerance) {
                return Err(qm::Error::new("Points must be strictly \\
                    monotonic increasing and not NaN"))  
            }
        }
        prev = Some(point.0);
    }
    Ok(())''', '''    for i in 1..points.len() {
        let gap = points[i - 1].0.interp_diff(points[i].0);
        if gap > tolerance { continue; }
        return Err(qm::Error::new("Points must be strictly monotonic increasing and not NaN"))
    }
    Ok(())'''))
same("pc-s-zip", "C32", (I, '''    let mut prev: Option<T> = None;
    for point in points {
        if let Some(p) = prev {

            // the comparison with tolerance below is carefully written
            // to also fail if the abscissa of either prev or point is NaN.
            if !(p.interp_diff(point.0) > tolerance) {
                return Err(qm::Error::new("Points must be strictly \\
                    monotonic increasing and not NaN"))  
            }
        }
        prev = Some(point.0);
    }
    Ok(())''', '''    for (a, b) in points.iter().zip(points.iter().skip(1)) {
        if !(a.0.interp_diff(b.0) > tolerance) {
            return Err(qm::Error::new("Points must be strictly monotonic increasing and not NaN"))
        }
    }
    Ok(())'''))
same("pc-s-frac", "C32", (DT, "assert!(day_fraction >= 0.0 && day_fraction < 1.0);", "if day_fraction < 0.0 || !(day_fraction < 1.0) { panic!(\"day fraction {} out of range\", day_fraction) }"))
same("pc-s-frac2", "C32", (DT, "assert!(day_fraction >= 0.0 && day_fraction < 1.0);", "assert!((0.0..1.0).contains(&day_fraction));"))

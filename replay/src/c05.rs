//! C05: knot vector construction, editing and queries.
use crate::fw::*;
use crate::gen::*;
use geom3d::*;

fn seq(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut t = vec![];
    let mut x = *r.pick(&[0.0, -2.0, 1.5]);
    for _ in 0..n {
        t.push(x);
        if r.below(3) != 0 {
            x += *r.pick(&[0.125, 0.5, 1.0, 1.0 / 3.0]);
        }
    }
    t
}

pub fn run(r: &mut Run) {
    // construction from values and multiplicities, also with lists of different length
    for n in sizes(r, 0, r.n(10, 20)) {
        for k in 0..r.n(12, 40) {
            let v = seq(&mut r.rng, n);
            let m: Vec<usize> = (0..if k % 5 == 4 { n + 1 } else if k % 5 == 3 && n > 0 { n - 1 } else { n }).map(|_| r.rng.below(6)).collect();
            let (v2, m2) = (v.clone(), m.clone());
            r.case("from_values_and_multiplicities", format!("values={:?} multiplicities={:?}", v, m), move || {
                let got = KnotVector::from_values_and_multiplicities(v2.clone(), m2.clone());
                let mut want = vec![];
                for (x, k) in v2.iter().zip(&m2) {
                    for _ in 0..*k { want.push(*x); }
                }
                ensure(got.0 == want, || format!("got {:?}, expected {:?}", got.0, want))
            });
        }
    }
    for d in sizes(r, 0, r.n(20, 60)) {
        r.case("bezier_knot", format!("degree={}", d), move || {
            let got = KnotVector::bezier_knot(d).0;
            let mut want = vec![0.0; d + 1];
            want.extend(vec![1.0; d + 1]);
            ensure(got == want, || format!("got {:?}", got))
        });
        for n in sizes(r, 1, r.n(14, 40)) {
            r.case("uniform_knot", format!("degree={} division={}", d, n), move || {
                let got = KnotVector::uniform_knot(d, n).0;
                ensure(got.len() == 2 * (d + 1) + n - 1, || format!("got {} knots", got.len()))?;
                for (i, g) in got.iter().enumerate() {
                    let want = if i <= d { 0.0 } else if i < d + n { (i - d) as f64 / n as f64 } else { 1.0 };
                    ensure((g - want).abs() < 1e-12, || format!("knot {} is {}, expected {}", i, g, want))?;
                }
                ensure(got.windows(2).all(|w| w[0] <= w[1]), || format!("not sorted {:?}", got))
            });
        }
    }
    for n in sizes(r, 2, r.n(14, 40)) {
        for _ in 0..r.n(12, 30) {
            if !r.time_left() { return; }
            let t = seq(&mut r.rng, n);
            let l = n - 1;
            let deg = r.rng.below(n + 2);
            let t2 = t.clone();
            r.case("queries", format!("knots={:?} degree={}", t, deg), move || {
                let k = KnotVector::new(t2.clone());
                ensure(k.0 == t2 && *k == t2 && k.as_ref() == &t2[..] && (&k).into_iter().copied().collect::<Vec<_>>() == t2, || "stored values differ".into())?;
                ensure(KnotVector::from(t2.clone()).0 == t2 && t2.iter().copied().collect::<KnotVector>().0 == t2, || "conversion".into())?;
                ensure(k.range() == (t2[0], t2[l]), || format!("range {:?}", k.range()))?;
                ensure(k.shrink().0 == t2[1..l].to_vec(), || format!("shrink {:?}", k.shrink().0))?;
                let want: Vec<f64> = (0..n.saturating_sub(deg)).map(|i| t2[i + deg] - t2[i]).collect();
                ensure(k.spans(deg) == want, || format!("spans({}) {:?} expected {:?}", deg, k.spans(deg), want))?;
                for i in 0..n {
                    let c = t2.iter().filter(|x| (**x - t2[i]).abs() < 1e-12).count();
                    ensure(k.multiplicity(i) == c, || format!("multiplicity({}) = {} expected {}", i, k.multiplicity(i), c))?;
                    for j in i..=n {
                        ensure(k.sub_vec(i..j).0 == t2[i..j].to_vec(), || format!("sub_vec({}..{})", i, j))?;
                        if j < n { ensure(k.sub_vec(i..=j).0 == t2[i..=j].to_vec(), || format!("sub_vec({}..={})", i, j))?; }
                    }
                }
                Ok(())
            });
            if t[0] < t[l] {
                let t2 = t.clone();
                r.case("normalize", format!("knots={:?}", t), move || {
                    let g = KnotVector::new(t2.clone()).normalize().0;
                    ensure(g.len() == n && g[0] == 0.0 && (g[l] - 1.0).abs() < 1e-12, || format!("got {:?}", g))?;
                    for i in 0..n {
                        let w = (t2[i] - t2[0]) / (t2[l] - t2[0]);
                        ensure((g[i] - w).abs() < 1e-12, || format!("knot {} is {}, expected {}", i, g[i], w))?;
                    }
                    Ok(())
                });
                for u in params_in(&mut r.rng, &t, t[0], t[l], 4) {
                    let t2 = t.clone();
                    r.case("span_index", format!("knots={:?} u={:?}", t, u), move || {
                        let s = KnotVector::new(t2.clone()).span_index(u);
                        ensure(s + 1 < n && t2[s] <= u && t2[s] < t2[s + 1] && (u < t2[s + 1] || (u == t2[l] && t2[s + 1] == t2[l])), || format!("span {}", s))
                    });
                }
            }
            let mut xs = t.clone();
            for w in t.windows(2) { xs.push((w[0] + w[1]) / 2.0); }
            xs.extend([t[0] - 1.0, t[l] + 1.0]);
            for x in xs {
                let t2 = t.clone();
                r.case("add_knot", format!("knots={:?} knot={:?}", t, x), move || {
                    let mut k = KnotVector::new(t2.clone());
                    let i = k.add_knot(x);
                    let at = t2.iter().filter(|y| **y <= x).count();
                    let mut want = t2.clone();
                    want.insert(at, x);
                    ensure(i == at && k.0 == want, || format!("position {} knots {:?}, expected {} {:?}", i, k.0, at, want))
                });
            }
        }
    }
}

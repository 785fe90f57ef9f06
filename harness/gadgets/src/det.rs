//! Which wires of a recorded system are functions of its inputs: elimination hints for the specification (which checks
//! them), and, where there are none, a search for a second assignment.
use crate::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn is_one_lc<F: PrimeField>(l: &[(usize, F)]) -> bool { l.len() == 1 && l[0].0 == 0 && l[0].1.is_one() }
/// (1 - w) w = 0 in some form: returns w
pub fn boolean_of<F: PrimeField>(c: &[Vec<(usize, F)>; 3]) -> Option<usize> {
    let ws: BTreeSet<usize> = c.iter().flat_map(|l| l.iter().map(|x| x.0)).filter(|w| *w != 0).collect();
    if ws.len() != 1 { return None; }
    let w = *ws.iter().next().unwrap();
    let co = |l: &Vec<(usize, F)>, k: usize| l.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(F::zero());
    if (co(&c[0], w) * co(&c[1], w)).is_zero() { return None; }
    let at = |v: F| (co(&c[0], 0) + co(&c[0], w) * v) * (co(&c[1], 0) + co(&c[1], w) * v) == co(&c[2], 0) + co(&c[2], w) * v;
    if at(F::zero()) && at(F::one()) { Some(w) } else { None }
}
/// centred value as a sum of signed powers of two
pub fn digits<F: PrimeField>(c: &F) -> Vec<(i64, usize)> {
    let neg = -*c;
    let bits = |f: &F| -> Vec<usize> { let r = f.into_repr(); let l = r.as_ref(); (0..l.len() * 64).filter(|i| l[i / 64] >> (i % 64) & 1 == 1).collect() };
    let (a, b) = (bits(c), bits(&neg));
    if a.last() <= b.last() { a.into_iter().map(|k| (1, k)).collect() } else { b.into_iter().map(|k| (-1, k)).collect() }
}
pub struct Det { pub rank: Vec<i64>, pub rule: Vec<Value>, pub brule: Vec<Value>, pub brank: Vec<usize>, pub packs: Vec<Vec<usize>>, pub val: Vec<usize>, pub free: Vec<usize> }
/// c[0] - c[2] of a constraint with c[1] = 1
fn sum_of<F: PrimeField>(c: &[Vec<(usize, F)>; 3]) -> BTreeMap<usize, Vec<(i64, usize)>> {
    let mut m: BTreeMap<usize, Vec<(i64, usize)>> = BTreeMap::new();
    for (w, k) in &c[0] { m.entry(*w).or_default().extend(digits(k)); }
    for (w, k) in &c[2] { m.entry(*w).or_default().extend(digits(k).into_iter().map(|(g, e)| (-g, e))); }
    m
}
/// sum of the digits of one sign, below 2^lim
fn below(m: &BTreeMap<usize, Vec<(i64, usize)>>, sign: i64, lim: usize) -> bool {
    let mut cnt = vec![0u64; 400];
    for (g, e) in m.values().flatten() { if *g == sign { if *e >= 300 { return false; } cnt[*e] += 1; } }
    for i in 0..399 { let c = cnt[i] / 2; cnt[i] %= 2; cnt[i + 1] += c; }
    cnt[lim..].iter().all(|x| *x == 0)
}
/// the lowest power of two in a coefficient, when it occurs once
fn val(d: &[(i64, usize)]) -> Option<usize> {
    let k = d.iter().map(|x| x.1).min()?;
    if d.iter().filter(|x| x.1 == k).count() == 1 { Some(k) } else { None }
}
/// elimination order: rank 0 = inputs; rank -1 = not determined
pub fn eliminate<F: PrimeField>(cs: &Rec<F>, inputs: &HashSet<usize>) -> Det {
    let n = cs.vals.len();
    let wires: Vec<BTreeSet<usize>> = cs.cons.iter().map(|c| c.iter().flat_map(|l| l.iter().map(|x| x.0)).collect()).collect();
    // wires that hold 0 or 1 in every satisfying assignment
    let mut brule = vec![json!(["none"]); n];
    let mut isb = vec![false; n];
    let mut defs: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, c) in cs.cons.iter().enumerate() {
        if let Some(w) = boolean_of(c) { if !isb[w] { isb[w] = true; brule[w] = json!(["c", i + 1]); } }
        if wires[i].len() <= 6 { for w in &wires[i] { if *w > 0 { defs.entry(*w).or_default().push(i); } } }
    }
    isb[0] = true;
    brule[0] = json!(["one"]);
    let mut brank = vec![0usize; n];
    let mut nb = 1;
    let mut work: std::collections::VecDeque<usize> = (1..n).filter(|w| !isb[*w]).collect();
    while let Some(w) = work.pop_front() {
        if isb[w] { continue; }
        for i in defs.get(&w).cloned().unwrap_or_default() {
            let c = &cs.cons[i];
            let cw = match c[2].iter().find(|x| x.0 == w) { Some(x) => x.1, None => continue };
            if c[0].iter().chain(c[1].iter()).any(|x| x.0 == w) || !(cw.is_one() || (-cw).is_one()) { continue; }
            let us: Vec<usize> = wires[i].iter().cloned().filter(|u| *u != w && *u != 0).collect();
            if !us.iter().all(|u| isb[*u]) { continue; }
            // the value the constraint gives its last wire t, from the values of the others
            let at = |i: usize, t: usize, v: &HashMap<usize, F>| -> Option<F> {
                let c = &cs.cons[i];
                let ct = c[2].iter().find(|x| x.0 == t)?.1;
                if c[0].iter().chain(c[1].iter()).any(|x| x.0 == t) || !(ct.is_one() || (-ct).is_one()) { return None; }
                let e = |l: &Vec<(usize, F)>| -> F { l.iter().filter(|x| x.0 != t).map(|(u, k)| v[u] * k).sum() };
                Some((e(&c[0]) * e(&c[1]) - e(&c[2])) * ct)
            };
            // at most one of the others may be an auxiliary function of the rest
            let mut ways = vec![(0usize, 0usize)];
            for h in &us { for j in defs.get(h).cloned().unwrap_or_default() { if wires[j].iter().all(|u| u == h || *u == 0 || us.contains(u)) { ways.push((*h, j)); } } }
            for (h, j) in ways {
                let base: Vec<usize> = us.iter().cloned().filter(|u| *u != h).collect();
                let ok = (0..1usize << base.len()).all(|m| {
                    let mut v: HashMap<usize, F> = base.iter().enumerate().map(|(k, u)| (*u, if m >> k & 1 == 1 { F::one() } else { F::zero() })).collect();
                    v.insert(0, F::one());
                    if h > 0 { match at(j, h, &v) { Some(x) => { v.insert(h, x); } None => return false } }
                    matches!(at(i, w, &v), Some(x) if x.is_zero() || x.is_one())
                });
                if ok { isb[w] = true; brule[w] = if h == 0 { json!(["t", i + 1]) } else { json!(["t", i + 1, j + 1, h]) }; break; }
            }
            if isb[w] {
                brank[w] = nb;
                nb += 1;
                for j in defs.get(&w).cloned().unwrap_or_default() { for u in &wires[j] { if !isb[*u] { work.push_back(*u); } } }
                break;
            }
        }
    }
    // packed sums of bits
    let lim = F::size_in_bits() - 1;
    let mut packs: HashMap<usize, (Vec<(usize, usize)>, usize)> = HashMap::new();
    for (i, c) in cs.cons.iter().enumerate() {
        if !is_one_lc(&c[1]) || wires[i].len() <= 3 || !wires[i].iter().all(|w| isb[*w]) { continue; }
        let m = sum_of(c);
        if !below(&m, 1, lim) || !below(&m, -1, lim) { continue; }
        if m.values().any(|d| val(d).is_none()) { continue; }
        let mut l: Vec<(usize, usize)> = m.iter().map(|(w, d)| (val(d).unwrap(), *w)).collect();
        l.sort();
        packs.insert(i, (l, 0));
    }
    let mut rank = vec![-1i64; n];
    let mut rule = vec![json!(["free"]); n];
    let mut uses: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, ws) in wires.iter().enumerate() { for w in ws { uses[*w].push(i); } }
    for w in 0..n { if w == 0 || inputs.contains(&w) { rank[w] = 0; rule[w] = json!(["in"]); } }
    let mut unk: Vec<usize> = wires.iter().map(|ws| ws.iter().filter(|w| rank[**w] < 0).count()).collect();
    let mut next = 1;
    let mut order: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut vals = vec![0usize; n];
    let mut queue: std::collections::VecDeque<usize> = (0..cs.cons.len()).collect();
    let mut inq = vec![true; cs.cons.len()];
    while let Some(i) = queue.pop_front() {
        inq[i] = false;
        loop {
            if unk[i] == 0 { break; }
            let c = &cs.cons[i];
            let mut got = None;
            if unk[i] == 1 {
                let w = *wires[i].iter().find(|w| rank[**w] < 0).unwrap();
                if !c[0].iter().chain(c[1].iter()).any(|x| x.0 == w) { got = Some(w); rule[w] = json!(["lin", i + 1]); }
            }
            if got.is_none() {
                if let Some((l, at)) = packs.get_mut(&i) {
                    while *at < l.len() && rank[l[*at].1] >= 0 { *at += 1; }
                    let (k, w) = l[*at];
                    let nx = l[*at + 1..].iter().find(|x| rank[x.1] < 0);
                    if nx.map(|x| x.0 > k).unwrap_or(true) {
                        got = Some(w);
                        rule[w] = json!(["dig", i + 1]);
                        order.entry(i + 1).or_default().push(w);
                        vals[w] = k;
                    }
                }
            }
            let w = match got { Some(w) => w, None => break };
            rank[w] = next;
            next += 1;
            for u in &uses[w] { unk[*u] -= 1; if !inq[*u] && *u != i { inq[*u] = true; queue.push_back(*u); } }
        }
    }
    let free = (0..n).filter(|w| rank[*w] < 0).collect();
    Det { rank, rule, brule, brank, packs: order.into_iter().map(|(i, mut v)| { v.insert(0, i); v }).collect(), val: vals, free }
}
pub fn ev<F: PrimeField>(l: &[(usize, F)], v: &[F]) -> F { l.iter().map(|(w, c)| v[*w] * c).sum() }
pub fn holds<F: PrimeField>(c: &[Vec<(usize, F)>; 3], v: &[F]) -> bool { ev(&c[0], v) * ev(&c[1], v) == ev(&c[2], v) }
pub fn satisfied<F: PrimeField>(cs: &Rec<F>) -> bool { cs.cons.iter().all(|c| holds(c, &cs.vals)) }
/// another digit sequence for a packed sum whose digits are not unique, carried through to the
/// wires that depend on it; the wires that differ
pub fn second_pack<F: PrimeField>(cs: &Rec<F>, d: &Det) -> Option<Vec<usize>> {
    let wires: Vec<BTreeSet<usize>> = cs.cons.iter().map(|c| c.iter().flat_map(|l| l.iter().map(|x| x.0)).collect()).collect();
    let lim = F::size_in_bits() - 1;
    let mut packs: HashMap<usize, BTreeMap<usize, (i64, usize)>> = HashMap::new();
    for (i, c) in cs.cons.iter().enumerate() {
        if !is_one_lc(&c[1]) || wires[i].len() <= 3 { continue; }
        let m = sum_of(c);
        packs.insert(i, m.iter().filter(|(w, x)| **w != 0 && x.len() == 1 && x[0].0.abs() == 1 && x[0].1 < lim).map(|(w, x)| (*w, (x[0].0, x[0].1))).collect());
    }
    let mut uses: Vec<Vec<usize>> = vec![vec![]; cs.vals.len()];
    for (i, ws) in wires.iter().enumerate() { for w in ws { uses[*w].push(i); } }
    let two = |k: usize| F::from(2u64).pow(&[k as u64]);
    let mut stuck: Vec<usize> = packs.iter().filter(|(i, _)| wires[**i].iter().filter(|w| d.rank[**w] < 0).count() > 1).map(|x| *x.0).collect();
    stuck.sort();
    for i in stuck.iter().take(40) {
        let un: Vec<(usize, i64, usize)> = packs[i].iter().filter(|(w, _)| d.rank[**w] < 0).map(|(w, (s, k))| (*k, *s, *w)).collect();
        if un.is_empty() { continue; }
        let s0 = un[0].1;
        if un.len() != wires[*i].iter().filter(|w| d.rank[**w] < 0).count() || un.iter().any(|x| x.1 != s0 || !(cs.vals[x.2].is_zero() || cs.vals[x.2].is_one())) { continue; }
        for (k, _, w) in &un {
            for (k2, _, w2) in &un {
                if k != k2 || w == w2 { continue; }
                // flip w; take the difference back from a chain of the other digits starting at w2
                let up = cs.vals[*w].is_zero();
                let mut mv = vec![*w];
                let mut at = *k;
                let mut ok = false;
                let mut cur = *w2;
                loop {
                    mv.push(cur);
                    if cs.vals[cur].is_one() == up { ok = true; break; }
                    at += 1;
                    match un.iter().find(|x| x.0 == at && !mv.contains(&x.2)) { Some(x) => cur = x.2, None => break }
                }
                if !ok { continue; }
                let mut v = cs.vals.clone();
                for x in &mv { v[*x] = F::one() - v[*x]; }
                let mut known: Vec<bool> = d.rank.iter().map(|r| *r >= 0).collect();
                for x in &un { known[x.2] = true; }
                let mut queue: std::collections::VecDeque<usize> = (0..cs.cons.len()).collect();
                let mut later = vec![];
                let mut fail = false;
                loop {
                    let i = match queue.pop_front() {
                        Some(i) => i,
                        None => match later.pop() {
                            // a packed sum with several open digits: decompose from the top
                            Some(i) => {
                                let mut open: Vec<(usize, i64, usize)> = packs[&i].iter().filter(|(w, _)| !known[**w]).map(|(w, (s, k))| (*k, *s, *w)).collect();
                                if open.len() < 2 { queue.push_back(i); continue; }
                                if open.len() != wires[i].iter().filter(|w| !known[**w]).count() || open.iter().any(|x| x.1 != open[0].1) { fail = true; break; }
                                open.sort();
                                for x in &open { v[x.2] = F::zero(); }
                                let c = &cs.cons[i];
                                let mut rest = ev(&c[2], &v) - ev(&c[0], &v);
                                if open[0].1 < 0 { rest = -rest; }
                                for x in open.iter().rev() {
                                    if rest.into_repr() >= two(x.0).into_repr() { v[x.2] = F::one(); rest -= two(x.0); }
                                    known[x.2] = true;
                                    queue.extend(uses[x.2].iter());
                                }
                                if !rest.is_zero() { fail = true; break; }
                                continue;
                            }
                            None => break,
                        },
                    };
                    let open: Vec<usize> = wires[i].iter().cloned().filter(|w| !known[*w]).collect();
                    if open.len() == 1 {
                        let w = open[0];
                        let c = &cs.cons[i];
                        if c[0].iter().chain(c[1].iter()).any(|x| x.0 == w) && !packs.contains_key(&i) { continue; }
                        v[w] = F::zero();
                        let r0 = ev(&c[0], &v) * ev(&c[1], &v) - ev(&c[2], &v);
                        v[w] = F::one();
                        let r1 = ev(&c[0], &v) * ev(&c[1], &v) - ev(&c[2], &v);
                        match (r0 - r1).inverse() { Some(inv) => v[w] = r0 * inv, None => continue }
                        known[w] = true;
                        queue.extend(uses[w].iter());
                    } else if open.len() > 1 && packs.contains_key(&i) && !later.contains(&i) { later.insert(0, i); }
                }
                if !fail && cs.cons.iter().all(|c| holds(c, &v)) { return Some((0..v.len()).filter(|w| v[*w] != cs.vals[*w]).collect()); }
            }
        }
    }
    None
}
/// change one free wire, keep the other choices and recompute everything the constraints then determine, in the order
/// in which they determine it
pub fn second_run<F: PrimeField>(cs: &Rec<F>, free: &[usize], counts: &dyn Fn(&[F]) -> bool) -> Option<Vec<usize>> {
    let n = cs.vals.len();
    let wires: Vec<Vec<usize>> = cs.cons.iter().map(|c| c.iter().flat_map(|l| l.iter().map(|x| x.0)).collect::<BTreeSet<usize>>().into_iter().collect()).collect();
    let mut uses: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, ws) in wires.iter().enumerate() { for w in ws { uses[*w].push(i); } }
    let mut fixed = vec![true; n];
    for w in free { fixed[*w] = false; }
    let open0: Vec<usize> = wires.iter().map(|ws| ws.iter().filter(|w| !fixed[**w]).count()).collect();
    let mut work = 20_000_000usize;
    // the wire changed is the nth that has to be chosen
    for nth in 0..60 {
        for delta in 0..2 {
            let (mut v, mut known, mut open) = (cs.vals.clone(), fixed.clone(), open0.clone());
            let mut queue: std::collections::VecDeque<usize> = (0..cs.cons.len()).filter(|i| open[*i] > 0).collect();
            let (mut chosen, mut next, mut changed) = (0, 0, None);
            loop {
                let w = match queue.pop_front() {
                    Some(i) => {
                        work = work.saturating_sub(wires[i].len());
                        if open[i] != 1 { continue; }
                        let c = &cs.cons[i];
                        let w = *wires[i].iter().find(|w| !known[**w]).unwrap();
                        let at = |v: &mut Vec<F>, x: F| { v[w] = x; ev(&c[0], v) * ev(&c[1], v) - ev(&c[2], v) };
                        let old = v[w];
                        let (r0, r1, r2) = (at(&mut v, F::zero()), at(&mut v, F::one()), at(&mut v, F::one().double()));
                        v[w] = old;
                        // linear in w
                        if r2 - r1 != r1 - r0 || r1 == r0 { continue; }
                        v[w] = r0 * (r0 - r1).inverse().unwrap();
                        w
                    }
                    None => {
                        while next < free.len() && known[free[next]] { next += 1; }
                        if next == free.len() { break; }
                        let w = free[next];
                        if chosen == nth { v[w] = if delta == 0 { F::one() - v[w] } else { v[w] + F::from(6u64) }; changed = Some(w); }
                        chosen += 1;
                        w
                    }
                };
                known[w] = true;
                for u in &uses[w] { open[*u] -= 1; if open[*u] == 1 { queue.push_back(*u); } }
            }
            if changed.is_none() || work == 0 { return None; }
            if v != cs.vals && counts(&v) && cs.cons.iter().all(|c| holds(c, &v)) { return Some((0..n).filter(|w| v[*w] != cs.vals[*w]).collect()); }
        }
    }
    None
}
/// change one free wire and repair what breaks by changing further free wires
pub fn second<F: PrimeField>(cs: &Rec<F>, free: &[usize], tries: usize) -> Option<Vec<usize>> { second_with(cs, free, tries, &|_| true) }
/// the second assignment has to differ in what `counts` looks at
pub fn second_with<F: PrimeField>(cs: &Rec<F>, free: &[usize], tries: usize, counts: &dyn Fn(&[F]) -> bool) -> Option<Vec<usize>> {
    if let Some(x) = second_run(cs, free, counts) { return Some(x); }
    let fset: HashSet<usize> = free.iter().cloned().collect();
    let mut uses: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, c) in cs.cons.iter().enumerate() {
        let ws: BTreeSet<usize> = c.iter().flat_map(|l| l.iter().map(|x| x.0)).collect();
        for w in ws { if fset.contains(&w) { uses.entry(w).or_default().push(i); } }
    }
    fn go<F: PrimeField>(cs: &Rec<F>, uses: &HashMap<usize, Vec<usize>>, fset: &HashSet<usize>, v: &mut Vec<F>, ch: &mut Vec<usize>, depth: usize, budget: &mut usize) -> bool {
        if *budget == 0 { return false; }
        *budget -= 1;
        let broken: BTreeSet<usize> = ch.iter().flat_map(|w| uses.get(w).cloned().unwrap_or_default()).filter(|i| !holds(&cs.cons[*i], v)).collect();
        let i = match broken.iter().next() { None => return true, Some(i) => *i };
        if depth == 0 { return false; }
        let c = &cs.cons[i];
        let ws: BTreeSet<usize> = c.iter().flat_map(|l| l.iter().map(|x| x.0)).filter(|w| fset.contains(w) && !ch.contains(w)).collect();
        for w in ws {
            let old = v[w];
            let mut cand = vec![F::one() - old];
            // solve the constraint for w when it is linear in it
            v[w] = F::zero();
            let r0 = ev(&c[0], v) * ev(&c[1], v) - ev(&c[2], v);
            v[w] = F::one();
            let r1 = ev(&c[0], v) * ev(&c[1], v) - ev(&c[2], v);
            if let Some(inv) = (r0 - r1).inverse() { cand.insert(0, r0 * inv); }
            for x in cand {
                if x == old { continue; }
                v[w] = x;
                ch.push(w);
                if go(cs, uses, fset, v, ch, depth - 1, budget) { return true; }
                ch.pop();
            }
            v[w] = old;
        }
        false
    }
    let mut total = 60_000usize;
    // the last wires first: nothing depends on them
    let mut order: Vec<&usize> = free.iter().rev().take(tries / 2).collect();
    order.extend(free.iter().take(tries / 2));
    for w in order {
        for d in [F::one() - cs.vals[*w], cs.vals[*w] + F::one(), F::from(7u64)].iter() {
            if *d == cs.vals[*w] { continue; }
            let mut v = cs.vals.clone();
            v[*w] = *d;
            let mut ch = vec![*w];
            let mut budget = total.min(2000);
            let b0 = budget;
            let hit = go(cs, &uses, &fset, &mut v, &mut ch, 6, &mut budget);
            total -= b0 - budget;
            if total == 0 { return None; }
            if hit && counts(&v) && cs.cons.iter().all(|c| holds(c, &v)) { return Some(ch); }
        }
    }
    None
}
/// linear combination with small coefficients apart from large ones: [[[w, c]..], [[w, sign, k]..]]
pub fn jbig<F: PrimeField>(l: &[(usize, F)]) -> Value {
    let (mut s, mut b) = (vec![], vec![]);
    for (w, c) in l {
        let d = digits(c);
        if d.last().unwrap().1 < 15 { s.push(json!([w, d.iter().map(|(g, k)| g << k).sum::<i64>()])); }
        else { for (g, k) in d { b.push(json!([w, g, k])); } }
    }
    json!([s, b])
}
pub fn jbigsys<F: PrimeField>(cs: &Rec<F>) -> Value { Value::Array(cs.cons.iter().map(|c| json!([jbig(&c[0]), jbig(&c[1]), jbig(&c[2])])).collect()) }

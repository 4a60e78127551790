//! Reduces a failing case while the same class of violation persists.
use crate::scenario::*;

/// Whether `m` still refers to columns and batches that exist.
fn valid(s: &Scenario) -> bool {
    let cols = s.root.count() as u32;
    let nb = s.batches.len() as u32;
    let ok = match s.misuse {
        None => true,
        Some(Misuse::Missing { batch, col }) | Some(Misuse::Extra { batch, col, .. }) | Some(Misuse::BadTag { batch, col, .. }) | Some(Misuse::Huge { batch, col, .. }) => batch < nb && col < cols,
        Some(Misuse::Declare { batch, .. }) => batch < nb,
        Some(Misuse::Uncommitted { .. }) => nb > 0,
        Some(Misuse::Swap { batch, less, more }) => batch < nb && less < cols && more < cols && less != more,
    };
    ok && tree_ok(&s.root)
}

fn tree_ok(n: &Node) -> bool {
    (match n.kind {
        Kind::List => n.children.len() == 1,
        Kind::Map => n.children.len() == 2,
        // Without variants no tag is legal.
        Kind::Union => !n.children.is_empty() || n.nulls == Nulls::All,
        Kind::Struct => true,
        _ => n.children.is_empty(),
    }) && n.children.iter().all(tree_ok)
}

/// Column ids in pre-order; removes the misuse's reference if its column disappears.
fn remap(s: &mut Scenario, removed_at: u32, n: u32) -> bool {
    let f = |c: u32| -> Option<u32> {
        if c < removed_at {
            Some(c)
        } else if c < removed_at + n {
            None
        } else {
            Some(c - n)
        }
    };
    s.misuse = match s.misuse {
        Some(Misuse::Missing { batch, col }) => match f(col) {
            Some(col) => Some(Misuse::Missing { batch, col }),
            None => return false,
        },
        Some(Misuse::Extra { batch, col, n, null }) => match f(col) {
            Some(col) => Some(Misuse::Extra { batch, col, n, null }),
            None => return false,
        },
        Some(Misuse::BadTag { batch, col, tag }) => match f(col) {
            Some(col) => Some(Misuse::BadTag { batch, col, tag }),
            None => return false,
        },
        Some(Misuse::Huge { batch, col, by }) => match f(col) {
            Some(col) => Some(Misuse::Huge { batch, col, by }),
            None => return false,
        },
        Some(Misuse::Swap { batch, less, more }) => match (f(less), f(more)) {
            (Some(less), Some(more)) => Some(Misuse::Swap { batch, less, more }),
            _ => return false,
        },
        m => m,
    };
    true
}

fn misuse_batch(s: &Scenario) -> Option<u32> {
    match s.misuse {
        Some(Misuse::Missing { batch, .. }) | Some(Misuse::Extra { batch, .. }) | Some(Misuse::BadTag { batch, .. }) | Some(Misuse::Declare { batch, .. }) | Some(Misuse::Swap { batch, .. }) | Some(Misuse::Huge { batch, .. }) => Some(batch),
        _ => None,
    }
}

fn set_misuse_batch(s: &mut Scenario, b: u32) {
    match &mut s.misuse {
        Some(Misuse::Missing { batch, .. }) | Some(Misuse::Extra { batch, .. }) | Some(Misuse::BadTag { batch, .. }) | Some(Misuse::Declare { batch, .. }) | Some(Misuse::Swap { batch, .. }) | Some(Misuse::Huge { batch, .. }) => *batch = b,
        _ => {}
    }
}

fn node_at<'a>(n: &'a mut Node, id: &mut usize) -> Option<&'a mut Node> {
    if *id == 0 {
        return Some(n);
    }
    *id -= 1;
    for c in &mut n.children {
        if let Some(x) = node_at(c, id) {
            return Some(x);
        }
    }
    None
}

fn with_node(s: &Scenario, id: usize, f: impl FnOnce(&mut Node)) -> Scenario {
    let mut t = s.clone();
    let mut k = id;
    f(node_at(&mut t.root, &mut k).unwrap());
    t
}

/// Single-step reductions of a scenario, roughly largest first.
fn candidates(s: &Scenario) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    macro_rules! push {
        ($t:ident, $body:block) => {{
            let mut $t = s.clone();
            $body
            v.push($t);
        }};
    }
    let nb = s.batches.len();
    // Runs of batches.
    let mut w = nb / 2;
    while w > nb / 300 {
        let mut i = 0;
        while i < nb {
            let j = (i + w).min(nb);
            let hit = misuse_batch(s).map_or(false, |b| (b as usize) >= i && (b as usize) < j);
            if !hit {
                push!(t, {
                    t.batches.drain(i..j);
                    if let Some(b) = misuse_batch(s) {
                        if b as usize >= j {
                            set_misuse_batch(&mut t, b - (j - i) as u32);
                        }
                    }
                });
            }
            i = j;
        }
        w /= 2;
    }
    // Columns.
    let n = s.root.count();
    let mut ids: Vec<(usize, usize, usize, usize)> = vec![]; // parent id, child index, child id, size
    fn list(n: &Node, id: &mut usize, out: &mut Vec<(usize, usize, usize, usize)>) {
        let me = *id;
        for (i, c) in n.children.iter().enumerate() {
            *id += 1;
            out.push((me, i, *id, c.count()));
            list(c, id, out);
        }
    }
    list(&s.root, &mut 0, &mut ids);
    // Runs of columns of a wide struct.
    if s.root.kind == Kind::Struct && s.root.children.len() > 8 && s.misuse.is_none() {
        let nk = s.root.children.len();
        let mut w = nk / 2;
        while w > nk / 64 {
            let mut i = 0;
            while i < nk {
                let j = (i + w).min(nk);
                push!(t, {
                    t.root.children.drain(i..j);
                });
                i = j;
            }
            w /= 2;
        }
    }
    for &(p, i, id, size) in ids.iter().filter(|_| n <= 300) {
        let mut k = p;
        let mut r = s.root.clone();
        let kind = node_at(&mut r, &mut k).unwrap().kind;
        if matches!(kind, Kind::Struct | Kind::Union) {
            let mut t = with_node(s, p, |x| {
                x.children.remove(i);
            });
            if remap(&mut t, id as u32, size as u32) {
                v.push(t);
            }
        }
    }
    // Thousands of columns or batches: no copy of everything for every detail.
    if n > 300 || nb > 3000 {
        return v;
    }
    // A nested column replaced by its child, or by a plain one.
    for id in 0..n {
        let mut k = id;
        let mut r = s.root.clone();
        let x = node_at(&mut r, &mut k).unwrap().clone();
        if !x.children.is_empty() && s.misuse.is_none() {
            for c in &x.children {
                v.push(with_node(s, id, |y| {
                    let name = y.name.clone();
                    *y = c.clone();
                    y.name = name;
                }));
            }
            v.push(with_node(s, id, |y| {
                y.kind = Kind::Long;
                y.children.clear();
            }));
        }
        if x.children.is_empty() && x.kind != Kind::Long && s.misuse.is_none() {
            v.push(with_node(s, id, |y| {
                y.kind = Kind::Long;
                y.mask = 0;
            }));
        }
        if x.nulls != Nulls::None {
            v.push(with_node(s, id, |y| y.nulls = Nulls::None));
            if x.nulls != Nulls::Single(0) {
                v.push(with_node(s, id, |y| y.nulls = Nulls::Single(0)));
            }
        }
        if x.mask != 0 {
            v.push(with_node(s, id, |y| y.mask = 0));
            if x.mask.count_ones() > 1 {
                for b in 0..9 {
                    if x.mask >> b & 1 != 0 {
                        v.push(with_node(s, id, |y| y.mask = 1 << b));
                    }
                }
            }
        }
        if !x.texts.is_empty() {
            v.push(with_node(s, id, |y| y.texts.clear()));
        }
        for i in 0..x.magic.len() {
            v.push(with_node(s, id, |y| drop(y.magic.remove(i))));
        }
        if x.scale > 1 {
            v.push(with_node(s, id, |y| y.scale = 1));
            v.push(with_node(s, id, |y| y.scale /= 2));
            v.push(with_node(s, id, |y| y.scale -= 1));
        }
        if x.name.len() > 1 {
            v.push(with_node(s, id, |y| y.name = "x".into()));
        }
        if let Kind::Decimal(p, sc) = x.kind {
            if sc > 0 {
                v.push(with_node(s, id, |y| y.kind = Kind::Decimal(p, 0)));
            }
        }
    }
    // Rows.
    for i in 0..nb {
        let b = s.batches[i];
        let mut d = b;
        while d > 0 {
            push!(t, {
                t.batches[i] = b - d;
            });
            d /= 2;
        }
    }
    if nb > 1 && s.misuse.is_none() {
        for i in 0..nb - 1 {
            push!(t, {
                let x = t.batches.remove(i + 1);
                t.batches[i] += x;
            });
        }
    }
    // Faults and schedule.
    for i in 0..s.sink.faults.len() {
        push!(t, {
            t.sink.faults.remove(i);
        });
    }
    for i in 0..s.sink.faults.len() {
        let f = s.sink.faults[i];
        if f.times != 1 {
            push!(t, {
                t.sink.faults[i].times = 1;
            });
        }
        if f.act.is_hard() && f.act != Act::Other {
            push!(t, {
                t.sink.faults[i].act = Act::Other;
            });
        }
        if let Place::Call(k) = f.at {
            for x in [0, k / 2, k.saturating_sub(1)] {
                if x != k {
                    push!(t, {
                        t.sink.faults[i].at = Place::Call(x);
                    });
                }
            }
        }
        if let Place::Byte(k) = f.at {
            for x in [0, k / 2, k - k / 4, k.saturating_sub(1)] {
                if x != k {
                    push!(t, {
                        t.sink.faults[i].at = Place::Byte(x);
                    });
                }
            }
        }
    }
    if s.sink.interrupts.is_some() {
        push!(t, {
            t.sink.interrupts = None;
        });
    }
    if s.sink.accept != Accept::Whole {
        push!(t, {
            t.sink.accept = Accept::Whole;
        });
        if s.sink.accept != Accept::AtMost(1) {
            push!(t, {
                t.sink.accept = Accept::AtMost(1);
            });
        }
    }
    if s.sink.writeback != 0 {
        push!(t, {
            t.sink.writeback = 0;
        });
    }
    if s.fill != Fill::PreOrder {
        push!(t, {
            t.fill = Fill::PreOrder;
        });
    }
    if s.reaction != Reaction::Finish {
        push!(t, {
            t.reaction = Reaction::Finish;
        });
    }
    if let Some(k) = s.abandon_after {
        push!(t, {
            t.abandon_after = None;
        });
        if k > 0 {
            push!(t, {
                t.abandon_after = Some(k - 1);
            });
        }
    }
    match s.misuse {
        Some(Misuse::Extra { batch, col, n, null }) if n > 1 => push!(t, {
            t.misuse = Some(Misuse::Extra { batch, col, n: 1, null });
        }),
        Some(Misuse::Declare { batch, delta }) if delta != 1 => push!(t, {
            t.misuse = Some(Misuse::Declare { batch, delta: 1 });
        }),
        _ => {}
    }
    // Configuration.
    let c = s.cfg;
    if c.codec != Codec::None {
        push!(t, {
            t.cfg.codec = Codec::None;
            t.cfg.block = None;
            t.cfg.level = None;
        });
        if c.codec == Codec::Zstd {
            push!(t, {
                t.cfg.codec = Codec::Snappy;
                t.cfg.level = None;
            });
        }
    }
    if c.block.is_some() {
        push!(t, {
            t.cfg.block = None;
        });
    }
    if c.level.is_some() {
        push!(t, {
            t.cfg.level = None;
        });
    }
    if c.stride.is_some() {
        push!(t, {
            t.cfg.stride = None;
        });
    }
    if let Some(k) = c.stripe {
        push!(t, {
            t.cfg.stripe = None;
        });
        for x in [0, k / 2, k - k / 4, k.saturating_sub(1)] {
            if x != k {
                push!(t, {
                    t.cfg.stripe = Some(x);
                });
            }
        }
    }
    v.retain(valid);
    v
}

fn case_candidates(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    if let Some(g) = &c.giant {
        // Each attempt takes seconds: only whether fewer values do.
        for n in [1000, 1 << 23] {
            if n < g.rows {
                let mut t = c.clone();
                t.giant.as_mut().unwrap().rows = n;
                v.push(t);
            }
        }
        for n in [1, g.lens.len() / 2, g.lens.len().saturating_sub(1)] {
            if n > 0 && n < g.lens.len() {
                let mut t = c.clone();
                t.giant.as_mut().unwrap().lens.truncate(n);
                v.push(t);
            }
        }
        return v;
    }
    if c.threads > 0 {
        let mut t = c.clone();
        t.threads = 0;
        v.push(t);
    }
    for i in 0..c.others.len() {
        let mut t = c.clone();
        t.others.remove(i);
        v.push(t);
    }
    if !c.others.is_empty() {
        let mut t = c.clone();
        t.main = t.others.remove(0);
        v.push(t);
    }
    for s in candidates(&c.main) {
        let mut t = c.clone();
        t.main = s;
        v.push(t);
    }
    for i in 0..c.others.len() {
        for s in candidates(&c.others[i]) {
            let mut t = c.clone();
            t.others[i] = s;
            v.push(t);
        }
    }
    if c.sched != 0 {
        let mut t = c.clone();
        t.sched = 0;
        v.push(t);
    }
    v
}

/// Greedy: applies the first reduction that keeps failing, until none does or the budget is used.
/// `failing` says whether a case still shows the violation. Returns the case and the number of
/// executions tried.
pub fn shrink(case: &Case, mut budget: u32, failing: &mut dyn FnMut(&Case) -> bool) -> (Case, u32) {
    let mut best = case.clone();
    let mut tried = 0;
    'again: loop {
        // Continue where the last success was: neighbouring reductions tend to succeed, too.
        let mut progressed = false;
        let mut i = 0;
        let mut cands = case_candidates(&best);
        while i < cands.len() {
            if budget == 0 {
                break 'again;
            }
            budget -= 1;
            tried += 1;
            if failing(&cands[i]) {
                best = cands.swap_remove(i);
                progressed = true;
                cands = case_candidates(&best);
            } else {
                i += 1;
            }
        }
        if !progressed {
            break;
        }
    }
    (best, tried)
}

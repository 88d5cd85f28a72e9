//! U01 U02: the rule catalogue.

#[allow(dead_code)]
use jarl_core::rule_set;

use mcx::*;
use rule_set::*;
use std::collections::HashSet;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn names(ck: &Check) {
    let all = Rule::all();
    let mut seen = HashSet::new();
    for r in all {
        let n = r.name();
        let bad = |why: &str| ck.violation("name", format!("{r:?} ({n}): {why}"), json!({ "rule": n }));
        ck.eval(1);
        ck.nontriv(1);
        if !seen.insert(n) {
            bad("name used twice");
        }
        if n.is_empty() || !n.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'_') {
            bad("not a plain name");
        }
        if Rule::from_name(n) != Some(*r) {
            bad("the name finds another rule");
        }
        if r.to_string() != n {
            bad("printed under another name");
        }
        if let Some(d) = r.deprecation() {
            if Rule::from_name(d.replacement).is_none_or(|x| x.is_deprecated()) || d.version.is_empty() {
                bad("deprecated without a usable replacement");
            }
        }
        if r.is_deprecated() != r.deprecation().is_some() {
            bad("deprecation flags disagree");
        }
        if r.categories().is_empty() || r.categories().iter().collect::<HashSet<_>>().len() != r.categories().len() {
            bad("no family, or one listed twice");
        }
    }
    // Anything else is not a rule: everything one edit away from a rule name...
    let letters: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789_ABCN -é:.".chars().collect();
    let n = AtomicU64::new(0);
    let full = RuleSet::all();
    let try_name = |s: &str| {
        n.fetch_add(1, Relaxed);
        if full.contains_name(s) != seen.contains(s) {
            ck.violation("set-lookup", format!("the set of all rules says {} for the name {s:?}", full.contains_name(s)), json!({ "name": s }));
        }
        let got = catch(|| Rule::from_name(s).map(|r| r.name()));
        let want = seen.get(s).copied();
        if got != Ok(want) {
            ck.violation("lookup", format!("{s:?} finds {got:?} instead of {want:?}"), json!({ "name": s }));
        }
    };
    ck.par(all.len() as u64, |i| {
        let name: Vec<char> = all[i as usize].name().chars().collect();
        let upper: String = name.iter().collect::<String>().to_uppercase();
        try_name(&upper);
        for p in 0..name.len() {
            let mut x = name.clone();
            x[p] = x[p].to_ascii_uppercase();
            if x != name {
                try_name(&x.iter().collect::<String>());
            }
        }
        for p in 0..=name.len() {
            for c in &letters {
                let mut x = name.clone();
                x.insert(p, *c);
                try_name(&x.iter().collect::<String>());
                if p < name.len() {
                    let mut x = name.clone();
                    x[p] = *c;
                    try_name(&x.iter().collect::<String>());
                }
            }
            if p < name.len() {
                let mut x = name.clone();
                x.remove(p);
                try_name(&x.iter().collect::<String>());
                let mut x = name.clone();
                x[p] = x[p].to_ascii_uppercase();
                try_name(&x.iter().collect::<String>());
                try_name(&name[..p].iter().collect::<String>());
                try_name(&name[p..].iter().collect::<String>());
            }
        }
        for o in all {
            try_name(&format!("{}_{}", all[i as usize].name(), o.name()));
            try_name(&format!("{},{}", all[i as usize].name(), o.name()));
        }
        try_name(&format!("{:?}", all[i as usize]));
    });
    // ... and every short word.
    let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyz_2".chars().collect();
    let w = Words::new(alpha.len(), ck.pick(4, 5));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        try_name(&ix.iter().map(|k| alpha[*k]).collect::<String>());
    });
    // Families.
    for c in Category::ALL {
        if Category::from_str(c.as_str()).as_ref() != Ok(c) || c.to_string() != c.as_str() {
            ck.violation("family", format!("{c:?} does not survive its name"), json!({ "family": c.as_str() }));
        }
        if Rule::from_name(c.as_str()).is_some() {
            ck.violation("family", format!("{c:?} is also a rule"), json!({ "family": c.as_str() }));
        }
        for o in Category::ALL {
            if c != o && c.as_str() == o.as_str() {
                ck.violation("family", format!("{c:?} and {o:?} share a name"), json!({ "family": c.as_str() }));
            }
        }
        if Rule::by_category(*c).next().is_none() {
            ck.violation("family", format!("{c:?} has no rule"), json!({ "family": c.as_str() }));
        }
    }
    let up: Vec<char> = "COMRSUPEFADTHcor ".chars().collect();
    let fams: HashSet<&str> = Category::ALL.iter().map(|c| c.as_str()).collect();
    let w = Words::new(up.len(), ck.pick(5, 6));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let s: String = ix.iter().map(|k| up[*k]).collect();
        n.fetch_add(1, Relaxed);
        let got = Category::from_str(&s).ok().map(|c| c.as_str());
        if got != fams.get(s.as_str()).copied() {
            ck.violation("family-lookup", format!("{s:?} finds {got:?}"), json!({ "name": s }));
        }
    });
    for name in RULE_FAMILIES_DOCUMENTED {
        if !fams.contains(name) {
            ck.violation("family", format!("documented family {name} is gone"), json!({ "family": name }));
        }
    }
    ck.eval(n.load(Relaxed));
    ck.extra("rules", all.len() as u64);
    ck.extra("names_tried", n.load(Relaxed));
}

const RULE_FAMILIES_DOCUMENTED: [&str; 6] = ["COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"];

fn groups(ck: &Check) {
    let all: Vec<Rule> = Rule::all().to_vec();
    let n = AtomicU64::new(0);
    let fail = |what: String| ck.violation("groups", what.clone(), json!({ "what": what }));
    // Partitions.
    let set = |v: Vec<Rule>| v.into_iter().map(|r| r.name()).collect::<Vec<_>>();
    let full = set(all.clone());
    let mut by_fix = vec![];
    for s in [FixStatus::None, FixStatus::Safe, FixStatus::Unsafe] {
        for r in Rule::by_fix_status(s) {
            if r.fix_status() != s {
                fail(format!("{r} listed under {s:?}"));
            }
            by_fix.push(r.name());
        }
    }
    let sorted = |v: &[&'static str]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    if sorted(&by_fix) != sorted(&full) {
        fail("fix classes do not partition the rules".into());
    }
    let mut by_default = set(Rule::enabled_by_default().collect());
    by_default.extend(set(Rule::disabled_by_default().collect()));
    if sorted(&by_default) != sorted(&full) {
        fail("enabled and disabled rules do not partition the rules".into());
    }
    for r in &all {
        n.fetch_add(1, Relaxed);
        let flags = [r.has_no_fix(), r.has_safe_fix(), r.has_unsafe_fix()];
        let want = match r.fix_status() {
            FixStatus::None => [true, false, false],
            FixStatus::Safe => [false, true, false],
            FixStatus::Unsafe => [false, false, true],
        };
        if flags != want {
            fail(format!("{r}: fix flags {flags:?} for {:?}", r.fix_status()));
        }
        if r.is_enabled_by_default() == r.is_disabled_by_default() || r.is_enabled_by_default() != (r.default_status() == DefaultStatus::Enabled) {
            fail(format!("{r}: default flags disagree"));
        }
        if Rule::enabled_by_default().any(|x| x == *r) != r.is_enabled_by_default() {
            fail(format!("{r}: default list disagrees"));
        }
        for c in Category::ALL {
            let a = r.has_category(*c);
            let b = r.categories().contains(c);
            let d = Rule::by_category(*c).any(|x| x == *r);
            if a != b || a != d {
                fail(format!("{r}: family {c} disagrees"));
            }
        }
        // Testthat rules are opt-in (documented).
        if r.has_category(Category::Testthat) && r.is_enabled_by_default() {
            fail(format!("{r}: testthat rules are documented as disabled by default"));
        }
    }
    let full_set = RuleSet::all();
    if set(full_set.iter().copied().collect()) != full || full_set.len() != all.len() || full_set.is_empty() {
        fail("the full set is not all rules".into());
    }
    if !RuleSet::empty().is_empty() || RuleSet::empty().len() != 0 || RuleSet::empty().iter().next().is_some() {
        fail("the empty set is not empty".into());
    }
    // Every subset of up to three rules x every rule and name as a query x filters.
    let k = all.len();
    let tuples: Vec<Vec<usize>> = {
        let mut v = vec![vec![]];
        for a in 0..k {
            v.push(vec![a]);
            for b in a + 1..k {
                v.push(vec![a, b]);
                v.push(vec![b, a]);
                for c in b + 1..k {
                    v.push(vec![a, b, c]);
                    if ck.thorough() {
                        v.push(vec![c, a, b]);
                        for d in c + 1..k {
                            v.push(vec![a, b, c, d]);
                        }
                    }
                }
            }
        }
        v
    };
    ck.par(tuples.len() as u64, |i| {
        let t = &tuples[i as usize];
        let rules: Vec<Rule> = t.iter().map(|x| all[*x]).collect();
        let s: RuleSet = rules.iter().copied().collect();
        let s2: RuleSet = rules.iter().collect();
        let s3 = RuleSet::from_rules(rules.clone());
        let fail = |w: &str| ck.violation("set", format!("{rules:?}: {w}"), json!({ "rules": rules.iter().map(|r| r.name()).collect::<Vec<_>>() }));
        if s != s2 || s != s3 || s.len() != rules.len() || s.is_empty() != rules.is_empty() {
            fail("construction");
        }
        if s.iter().copied().collect::<Vec<_>>() != rules {
            fail("order or content");
        }
        for (j, r) in all.iter().enumerate() {
            let want = t.contains(&j);
            if s.contains(r) != want || s.contains_name(r.name()) != want {
                fail(&format!("membership of {r}"));
            }
        }
        for c in Category::ALL {
            let f = s.clone().filter(|r| r.has_category(*c));
            let want: Vec<Rule> = rules.iter().copied().filter(|r| r.categories().contains(c)).collect();
            if f.iter().copied().collect::<Vec<_>>() != want {
                fail(&format!("filter by {c}"));
            }
        }
        if s.contains_name("") || s.contains_name("not_a_rule") {
            fail("contains a name that is not a rule");
        }
        n.fetch_add(1 + all.len() as u64, Relaxed);
    });
    ck.eval(n.load(Relaxed));
    ck.nontriv(tuples.len() as u64);
    ck.extra("subsets", tuples.len() as u64);
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let ck = Check::new(&prop, "exploration");
    match prop.as_str() {
        "U01" => {
            ck.rule("every rule; every string one edit away from a rule name, every prefix and suffix, every pair joined, every short word; non-trivial = the string is a rule name");
            ck.sample(json!("any_is_na"));
            ck.sample(json!("any_is_n"));
            names(&ck)
        }
        "U02" => {
            ck.rule("every subset of up to three (thorough: four) rules x every rule, name and family; every grouping of the catalogue; non-trivial = distinct subsets");
            ck.sample(json!(["any_is_na", "seq"]));
            groups(&ck)
        }
        _ => panic!("unknown property"),
    }
    ck.finish()
}

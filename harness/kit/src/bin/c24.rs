//! C24: rustc is told about every template file a template is made of.
use std::collections::BTreeMap;
use std::fmt::Write;
use vkit::e2e::dep_info;
use vkit::part::*;
use vkit::refsets::*;

fn main() {
    let mut p = Part::from_args();
    let mut sets = all(1, &[0, 3, 4], &HOLDERS);
    let few = [Holder::Plain, Holder::Else, Holder::ForElse, Holder::Macros, Holder::Blocks, Holder::WhenElse, Holder::Filter];
    sets.extend(all(2, if thorough() { &[0, 1, 2, 3, 4] } else { &[1, 2, 3] }, &HOLDERS));
    sets.extend(all(3, &[2], if thorough() { &HOLDERS } else { &few }));
    sets.extend(rows(&[4, 5, 8, 17, 33]));
    let out = std::path::PathBuf::from(std::env::var("VK_OUT").unwrap()).join("e2e").join("c24");
    let _ = std::fs::remove_dir_all(&out);
    let per = 120;
    let n = sets.len().div_ceil(per);
    let got = vkit::pool::map(n, |b| {
        let dir = out.join(format!("b{b}"));
        let mut src = String::new();
        let mut want: BTreeMap<std::path::PathBuf, &Set> = BTreeMap::new();
        for (k, s) in sets.iter().enumerate().skip(b).step_by(n) {
            for (i, (f, t)) in s.files.iter().enumerate() {
                let f = dir.join("templates").join(format!("c{k}")).join(f);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(&f, t.replace("@/", &format!("c{k}/"))).unwrap();
                if s.uses.contains(&i) {
                    want.insert(f.canonicalize().unwrap(), s);
                }
            }
            let _ = writeln!(src, "pub mod m{k} {{ #[derive(askama::Template)] #[template({})] pub struct T {{ {FIELDS} }} }}", s.attrs.replace("@/", &format!("c{k}/")));
        }
        let r = dep_info(&dir, &src);
        let bad = match &r {
            Err(e) => vec![(format!("batch {b}"), e.clone())],
            Ok(d) => want.iter().filter(|(f, _)| !d.contains(*f)).map(|(f, s)| (s.name.clone(), format!("rustc was not told about {}", f.display()))).collect(),
        };
        let _ = std::fs::remove_dir_all(&dir);
        (want.len(), bad)
    });
    p.add("states", sets.len() as u64);
    p.add("rustc_runs", n as u64);
    for (files, bad) in got {
        p.add("traces", files as u64);
        p.add("transitions", files as u64);
        for (k, d) in bad {
            p.violation(k, d);
        }
    }
    p.finish();
}

//! vextract: turn the compiler-expanded source of the crate under test into a
//! Verus crate, attaching the contracts kept in /verif/contracts.
//!
//! usage: vextract EXPANDED.rs CONTRACTS_DIR OUT.rs OUT.json [UNSUPPORTED.txt]
mod annot;
mod emit;
mod fields;
mod lower;
mod pre;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("read expanded source");
    let mut file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("PARSE-ERROR {e}");
            std::process::exit(3);
        }
    };
    // dev: print the table kept in contracts/fields.txt
    if std::env::var("VP_FIELDS").is_ok() {
        for l in fields::table(&file) {
            println!("{l}");
        }
        return;
    }
    let base = std::fs::read_to_string(format!("{}/fields.txt", a[2])).unwrap_or_default();
    let renamed = fields::rename_back(&mut file, &base);
    let db = annot::Db::load(&a[2]);
    let mut unsupported: Vec<(String, String)> = vec![];
    if let Some(p) = a.get(5) {
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                if let Some((k, v)) = l.split_once('\t') {
                    unsupported.push((k.into(), v.into()));
                }
            }
        }
    }
    let mut em = emit::Emitter::new(db, unsupported);
    let mut notes = Default::default();
    pre::run(&mut file, &mut notes);
    for n in renamed.iter().chain(&notes) {
        em.notes.insert(n.clone());
    }
    em.run(file);
    std::fs::write(&a[3], &em.out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&em.report()).unwrap()).unwrap();
}

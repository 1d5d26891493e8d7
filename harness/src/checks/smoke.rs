//! Development aid: show what the library says about the corpus.
use crate::obs::{observe, show, Op};
pub fn run() -> i32 {
    for s in crate::corpus::all(24, 18) {
        if let Ok(f) = std::env::var("ORVERIF_ONLY") {
            if !s.name.contains(&f) {
                continue;
            }
        }
        println!(
            "=== {} ({} bytes, {} fields)",
            s.name,
            s.file.data.len(),
            s.file.fields.len()
        );
        if let Ok(d) = std::env::var("ORVERIF_SAVE") {
            let _ = std::fs::write(format!("{d}/{}.{}", s.name, s.ext), &s.file.data);
        }
        let f = match libopenraw::rawfile_from_memory(s.file.data.clone(), None) {
            Ok(f) => f,
            Err(e) => {
                println!("OPEN {e:?}");
                continue;
            }
        };
        for op in crate::obs::alphabet() {
            if matches!(op, Op::Dump | Op::Meta | Op::IfdObs(0))
                && std::env::var_os("ORVERIF_ONLY").is_none()
            {
                continue;
            }
            let r = crate::pool::catch(|| observe(&f, &op));
            match r {
                Ok(o) => println!(
                    "  {op:?}: {}",
                    if std::env::var_os("ORVERIF_ONLY").is_some() {
                        String::from_utf8_lossy(&o[..o.len().min(6000)]).into_owned()
                    } else {
                        show(
                            &o[o.len()
                                .saturating_sub(if matches!(op, Op::Raw(_) | Op::Render(_)) {
                                    580
                                } else {
                                    0
                                })
                                .min(o.len())..],
                        ) + if o.len() > 3 { "" } else { "" }
                    }
                ),
                Err(m) => println!("  {op:?}: PANIC {m}"),
            }
        }
    }
    0
}

//! Judging an answer obtained under damage (a failing stream, a truncated
//! file) against the answers for the undamaged file: everything returned must
//! come from the undamaged answer.
use crate::obs::{is_err, Op};

/// The undamaged answers of one file, by query.
pub struct Refs {
    pub ops: Vec<Op>,
    pub ans: Vec<Vec<u8>>,
    /// documented per-model defaults: a sample attribute may fall back to them
    pub extra: Vec<String>,
}

pub struct Bits<'a> {
    pub head: String,
    pub data: &'a [u8],
    pub wide: bool,
    pub tail: &'a [u8],
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// Split a serialised bitmap into head, samples and attributes.
pub fn split(o: &[u8]) -> Option<Bits<'_>> {
    let nl = o.iter().position(|c| *c == b'\n')?;
    let head = String::from_utf8_lossy(&o[..nl]).into_owned();
    for (m, wide) in [(&b"\nd8 "[..], false), (&b"\nd16 "[..], true)] {
        if o[nl + 1..].starts_with(m) || o[nl..].starts_with(m) {
            let p = if o[nl..].starts_with(m) { nl } else { nl + 1 } + m.len();
            let c = p + o[p..].iter().position(|c| *c == b':')?;
            let n: usize = std::str::from_utf8(&o[p..c]).ok()?.parse().ok()?;
            let n = if wide { n * 2 } else { n };
            return Some(Bits {
                head,
                data: o.get(c + 1..c + 1 + n)?,
                wide,
                tail: &o[c + 1 + n..],
            });
        }
    }
    Some(Bits {
        head,
        data: &[],
        wide: false,
        tail: &o[nl + 1..],
    })
}

pub fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '-' || c == '.'))
        .filter(|w| !w.is_empty())
        .collect()
}

/// Undo the quoting of `{:?}` for the strings `obs::value` makes.
fn unquote(s: &str) -> Option<String> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    Some(s.replace("\\\"", "\"").replace("\\\\", "\\"))
}

/// Every word of `got` occurs in `want` or is a neutral default.
fn drawn(got: &str, want: &str, dims: &[String]) -> Result<(), String> {
    let ok: std::collections::HashSet<&str> = words(want).into_iter().collect();
    for w in words(got) {
        let neutral = ["None", "Some", "0", "0x0", "1", "Unknown", "false", "true"].contains(&w)
            || dims.iter().any(|d| d == w);
        if !ok.contains(w) && !neutral {
            return Err(format!(
                "invented {w:?} in [{got}], the file gives [{want}]"
            ));
        }
    }
    Ok(())
}

fn numbers(bpc: &str) -> Vec<String> {
    // default white level of a bit depth
    let b: u32 = bpc.parse().unwrap_or(0);
    vec![
        ((1u32 << b.min(16)) - 1).to_string(),
        "255".into(),
        "65535".into(),
    ]
}

impl Refs {
    fn of(&self, op: &Op) -> Option<&Vec<u8>> {
        self.ops.iter().position(|o| o == op).map(|i| &self.ans[i])
    }

    /// `short`: pieces of data may be cut at their end (the file is truncated)
    pub fn judge(&self, op: &Op, got: &[u8], short: bool) -> Result<(), String> {
        let want = match self.of(op) {
            Some(w) => w,
            None => return Err("no reference".into()),
        };
        if got == &want[..] || is_err(got) {
            return Ok(());
        }
        let extra = &self.extra;
        let gs = String::from_utf8_lossy(got).into_owned();
        let ws = String::from_utf8_lossy(want).into_owned();
        match op {
            Op::Type | Op::Mime => Err(format!("is {gs}, the whole file is {ws}")),
            Op::TypeId => {
                // vendor known, model unknown
                let v = ws.split(' ').next().unwrap_or("");
                if gs == format!("{v} 0") || gs == "0 0" {
                    Ok(())
                } else {
                    Err(format!("is {gs}, the whole file is {ws}"))
                }
            }
            Op::Vendor => {
                if gs == "0" {
                    Ok(())
                } else {
                    Err(format!("is {gs}, the whole file is {ws}"))
                }
            }
            Op::Orient => {
                if gs == "0" {
                    Ok(())
                } else {
                    Err(format!("is {gs}, the whole file is {ws}"))
                }
            }
            Op::Sizes => drawn(&gs, &ws, &[]),
            Op::Thumb(_) | Op::ThumbNth(_) => {
                // one of the file's thumbnails
                for (o, r) in self.ops.iter().zip(&self.ans) {
                    if !matches!(o, Op::Thumb(_) | Op::ThumbNth(_)) || is_err(r) {
                        continue;
                    }
                    if r == got {
                        return Ok(());
                    }
                    if short {
                        if let (Some(g), Some(w)) = (split(got), split(r)) {
                            let cut = |h: &str| h.split(" size").next().unwrap_or("").to_string();
                            if cut(&g.head) == cut(&w.head) && w.data.starts_with(g.data) {
                                return Ok(());
                            }
                        }
                    }
                }
                Err(format!(
                    "not one of the file's previews: {}",
                    crate::obs::show(got)
                ))
            }
            Op::Raw(_) => {
                let g = split(got).ok_or("unreadable answer")?;
                let mut why = String::new();
                for r in [self.of(op), self.of(&Op::Raw(true))].into_iter().flatten() {
                    if is_err(r) {
                        continue;
                    }
                    match judge_raw(&g, r, short, extra) {
                        Ok(()) => return Ok(()),
                        Err(e) => {
                            if why.is_empty() {
                                why = e
                            }
                        }
                    }
                }
                Err(why)
            }
            Op::Render(_) => {
                // levels may be the documented defaults: the picture's form must agree
                let (g, w) = (
                    split(got).ok_or("unreadable answer")?,
                    split(want).ok_or("the whole file cannot be rendered")?,
                );
                if g.head == w.head && g.data.len() == w.data.len() {
                    Ok(())
                } else {
                    Err(format!(
                        "rendered [{}], the whole file gives [{}]",
                        g.head, w.head
                    ))
                }
            }
            Op::Meta | Op::Dump => {
                if *op == Op::Dump {
                    return Ok(());
                }
                let mut it = ws.split('\n');
                for l in gs.split('\n') {
                    if l.is_empty() {
                        continue;
                    }
                    // an entry explicitly flagged as invalid
                    let key = l.split(' ').next().unwrap_or("");
                    if l[key.len()..].starts_with(" 10000 ?[") {
                        if !it.any(|w| w.split(' ').next() == Some(key)) {
                            return Err(format!("metadata not in the file: {l}"));
                        }
                        continue;
                    }
                    if !it.any(|w| w == l) {
                        return Err(format!("metadata not in the file: {l}"));
                    }
                }
                Ok(())
            }
            Op::MetaFirst => {
                if gs == "None" {
                    return Ok(());
                }
                // one of the file's entries, or one flagged as invalid
                let p: Vec<&str> = gs.splitn(3, '"').collect();
                let key = p.get(1).copied().unwrap_or("");
                let inval = gs.contains(r#", "?["#) && gs.ends_with(", 10000))");
                let ms = self
                    .of(&Op::Meta)
                    .map(|m| String::from_utf8_lossy(m).into_owned())
                    .unwrap_or_default();
                for l in ms.split('\n') {
                    let mut w = l.splitn(3, ' ');
                    let (k, t, rest) = (
                        w.next().unwrap_or(""),
                        w.next().unwrap_or(""),
                        w.next().unwrap_or(""),
                    );
                    if k != key {
                        continue;
                    }
                    if inval {
                        return Ok(());
                    }
                    // the line starts with the value and has its type
                    let head = format!("Some((\"{k}\", ");
                    let tail = format!(", {t}))");
                    if let Some(v) = gs.strip_prefix(&head).and_then(|v| v.strip_suffix(&tail)) {
                        if let Some(v) = unquote(v) {
                            if rest.starts_with(&v) {
                                return Ok(());
                            }
                        }
                    }
                }
                Err(format!("first entry is {gs}, not {ws}"))
            }
            Op::IfdObs(_) => {
                if is_err(want) {
                    return Err("a directory the file does not have".into());
                }
                let wl: Vec<&str> = ws.split('\n').collect();
                if gs.lines().next().map_or(false, |l| l.contains(" n=0 "))
                    && gs.lines().count() == 1
                {
                    return Ok(()); // an empty directory
                }
                for (i, l) in gs.split('\n').enumerate() {
                    if i == 0 {
                        // type, byte order, name; the number of entries may be smaller
                        let t = |s: &str| {
                            s.split(' ')
                                .filter(|w| !w.starts_with("n=") && !w.starts_with("next="))
                                .collect::<Vec<_>>()
                                .join(" ")
                        };
                        if t(l) != t(wl[0]) {
                            return Err(format!("directory [{l}] instead of [{}]", wl[0]));
                        }
                    } else if !l.is_empty() && !wl.contains(&l) {
                        // an entry whose value is missing
                        let w = wl
                            .iter()
                            .find(|w| w.get(..5) == l.get(..5))
                            .ok_or(format!("entry not in the file: {l}"))?;
                        drawn(l, w, &[])?;
                    }
                }
                Ok(())
            }
            Op::Illum(_) => {
                if gs == "Unknown" {
                    Ok(())
                } else {
                    Err(format!("is {gs}, the whole file has {ws}"))
                }
            }
            Op::Value(_) if gs.starts_with("?[") && !is_err(want) => Ok(()),
            Op::Value(_) | Op::Matrix(_) | Op::Builtin | Op::Debug => {
                Err(format!("is {gs}, the whole file has {ws}"))
            }
        }
    }
}

fn judge_raw(g: &Bits, want: &[u8], short: bool, extra: &[String]) -> Result<(), String> {
    let w = split(want).ok_or("unreadable")?;
    let dims = |h: &str| -> (String, String, String) {
        let p: Vec<&str> = h.split(' ').collect();
        (
            p.first().unwrap_or(&"").to_string(),
            p.get(1).unwrap_or(&"").to_string(),
            p.get(3).unwrap_or(&"").to_string(),
        )
    };
    let (gt, gd, gb) = dims(&g.head);
    let (wt, wd, wb) = dims(&w.head);
    if gt != wt || gd != wd || gb != wb || g.wide != w.wide {
        return Err(format!(
            "raw data is [{}], the whole file gives [{}]",
            g.head, w.head
        ));
    }
    if short {
        if g.data.len() > w.data.len() {
            return Err("more raw data than the whole file has".into());
        }
        let k = if g.wide { 2 } else { 1 };
        for (i, (a, b)) in g.data.chunks(k).zip(w.data.chunks(k)).enumerate() {
            if a != b && a.iter().any(|c| *c != 0) {
                return Err(format!(
                    "sample {i} is {a:?}, the whole file has {b:?} (missing samples are 0)"
                ));
            }
        }
    } else if g.data != w.data {
        return Err(format!(
            "raw samples differ: {}",
            crate::obs::diff(g.data, w.data)
        ));
    }
    // attributes: before the tile / hash bytes
    let cut = |t: &[u8]| {
        let n = find(t, b"\ntile ")
            .and_then(|p| {
                t[p + 1..]
                    .iter()
                    .position(|c| *c == b'\n')
                    .map(|q| p + 1 + q)
            })
            .unwrap_or(t.len());
        String::from_utf8_lossy(&t[..n]).into_owned()
    };
    let (ga, wa) = (cut(g.tail), cut(w.tail));
    let mut def = numbers(&gb);
    def.extend(extra.iter().cloned());
    def.extend(gd.split('x').map(|s| s.to_string()));
    for (l, m) in ga.split('\n').zip(wa.split('\n')) {
        drawn(l, m, &def)?;
    }
    Ok(())
}

//! C22: the dependency file names the header and every file that was read.
use crate::p_sel::{Dir, Gen19, Want};
use crate::util::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

/// The words of a rule as make and ninja read them: a blank ends a word unless an odd number of
/// backslashes precedes it, of which half stand for backslashes; `\\#` is `#`, `$$` is `$`, and a
/// backslash at the end of a line continues it.
pub fn read_rule(text: &str) -> Result<(String, Vec<String>), String> {
    let text = text.strip_suffix('\n').ok_or("no newline at the end")?;
    let c: Vec<char> = text.chars().collect();
    let mut words: Vec<String> = vec![];
    let mut cur = String::new();
    let mut target: Option<String> = None;
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '\\' => {
                let mut j = i;
                while j < c.len() && c[j] == '\\' {
                    j += 1;
                }
                let n = j - i;
                let next = c.get(j).copied();
                match next {
                    Some('\n') if n == 1 => {
                        if !cur.is_empty() {
                            words.push(std::mem::take(&mut cur));
                        }
                        i = j + 1;
                        continue;
                    }
                    Some(b @ (' ' | '\t')) => {
                        cur.extend(std::iter::repeat_n('\\', n / 2));
                        if n % 2 == 1 {
                            cur.push(b);
                            i = j + 1;
                            continue;
                        }
                    }
                    Some('#') => {
                        cur.extend(std::iter::repeat_n('\\', n - 1));
                        cur.push('#');
                        i = j + 1;
                        continue;
                    }
                    _ => cur.extend(std::iter::repeat_n('\\', n)),
                }
                i = j;
            }
            ' ' | '\t' => {
                if !cur.is_empty() {
                    words.push(std::mem::take(&mut cur));
                }
                i += 1;
            }
            '\n' => return Err("a second line".into()),
            '#' => return Err("a comment".into()),
            '$' => {
                if c.get(i + 1) != Some(&'$') {
                    return Err("a variable".into());
                }
                cur.push('$');
                i += 2;
            }
            ':' if target.is_none() && c.get(i + 1).is_none_or(|x| *x == ' ' || *x == '\n') => {
                target = Some(std::mem::take(&mut cur));
                if !words.is_empty() {
                    return Err("more than one target".into());
                }
                i += 1;
            }
            x => {
                cur.push(x);
                i += 1;
            }
        }
    }
    if !cur.is_empty() {
        words.push(cur);
    }
    Ok((target.ok_or("no target")?, words))
}

fn odd(r: &mut Rng, base: &str) -> String {
    let mut s = String::from(base);
    for _ in 0..r.below(4) {
        s.push_str(*r.pick(&[" ", "  ", "\t", "#", "$", "$$", "\\ ", "\\\\ ", "\\x", "%", "é", "'", "\"", "(", ")", "a", "$x", "=", ",", "&", "$(y)"]));
    }
    s.push('e');
    s
}

fn one(ctx: &Ctx, _i: usize, r: &mut Rng) -> Result<(), Fail> {
    let d0 = ctx.tdir().join("dep");
    let _ = std::fs::remove_dir_all(&d0);
    let d = d0.join(odd(r, "d"));
    std::fs::create_dir_all(&d).unwrap();
    let mut want: Vec<PathBuf> = vec![];
    let mut text = String::new();
    let mut srcs = vec![];
    for k in 0..1 + r.below(2) {
        let mut g = Gen19 { n: 100 * k, want: Want::default(), files: vec![], read: vec![], top: true };
        let mut src = String::new();
        let root = Dir { base: PathBuf::new(), sub: PathBuf::new() };
        g.items(r, 0, true, &root, &mut src);
        let sub = d.join(odd(r, &format!("src{k}")));
        std::fs::create_dir_all(&sub).unwrap();
        for (p, t) in &g.files {
            let p1 = sub.join(p);
            std::fs::create_dir_all(p1.parent().unwrap()).unwrap();
            std::fs::write(&p1, t).unwrap();
            let _ = write!(text, "// ---- file {}\n{t}", p1.display());
        }
        let f = sub.join(format!("{}.rs", odd(r, "lib")));
        std::fs::write(&f, &src).unwrap();
        let _ = write!(text, "// ---- file {}\n{src}", f.display());
        want.extend(g.read.iter().map(|p| sub.join(p).canonicalize().unwrap()));
        want.push(f.canonicalize().unwrap());
        srcs.push(f);
    }
    let toml = "language = \"C\"\n".to_string();
    let cf = d.join(odd(r, "c"));
    std::fs::write(&cf, &toml).unwrap();
    let conf = r.chance(3, 4);
    if conf {
        want.push(cf.canonicalize().unwrap());
    }
    let out = d.join(odd(r, "h"));
    let dep = if r.chance(1, 3) { d.join("new/dir").join(odd(r, "dep")) } else { d.join(odd(r, "dep")) };
    if r.chance(1, 3) && dep.parent().unwrap().exists() {
        std::fs::write(&dep, "old contents that are longer than what is written, maybe\n".repeat(30)).unwrap();
    }
    let inp = Input { src: text, toml: if conf { toml } else { String::new() } };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let cfg = if conf { cbindgen::Config::from_file(&cf).map_err(|e| format!("config: {e}"))? } else { cbindgen::Config { language: cbindgen::Language::C, ..Default::default() } };
        let mut b = cbindgen::Builder::new().with_config(cfg);
        for s in &srcs {
            b = b.with_src(s);
        }
        let b = b.generate().map_err(|e| format!("generate: {e}"))?;
        b.write_to_file(&out);
        b.generate_depfile(&out, &dep);
        std::fs::read_to_string(&dep).map_err(|e| format!("depfile: {e}"))
    }));
    let text = match res {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(fail(&inp, "", format!("no dependency file: {e}"))),
        Err(p) => return Err(fail(&inp, "", format!("cbindgen panicked: {}", panic_text(&p)))),
    };
    if want.len() > 2 {
        ctx.interesting();
    }
    let (t, words) = read_rule(&text).map_err(|e| fail(&inp, &text, format!("the dependency file is not one rule: {e}")))?;
    if PathBuf::from(&t) != out.canonicalize().unwrap() {
        return Err(fail(&inp, &text, format!("the target is read as {t:?}, the header is {:?}", out)));
    }
    let mut got: Vec<PathBuf> = words.iter().map(PathBuf::from).collect();
    got.sort();
    got.dedup();
    want.sort();
    want.dedup();
    if got != want {
        return Err(fail(&inp, &text, format!("prerequisites read back: {got:?}; files that were read: {want:?}")));
    }
    Ok(())
}

pub fn c22(ctx: &Ctx) {
    let n = ctx.n(3000, 40000);
    ctx.bound(format!("{n} random sources with module files in directories and files whose names hold blanks, backslashes, `#`, `$` and other characters: the dependency file, read with make's rules, has the header as its target and exactly the parsed source files and the configuration file as prerequisites"));
    ctx.par("dep", n, one);
}

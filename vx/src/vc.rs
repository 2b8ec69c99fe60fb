//! Contract files.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub ghost: Vec<(String, String)>,
    pub closures: BTreeMap<usize, (String, String)>,
    pub outline: Vec<(String, String, String)>,
    pub body_external: bool,
    pub file: String,
    pub trusted: bool,
    pub generics: Option<String>,
    pub used: std::cell::Cell<bool>,
    pub strlits: bool,
    pub broadcast: String,
    /// source function and header of a lifted (instantiated) copy
    pub lift: Option<(String, String)>,
    pub subst: Vec<(String, String)>,
    pub calls: Vec<(String, Option<usize>, String)>,
    /// definitional unfoldings of Option/Result combinators: (method, option|result)
    pub unfolds: Vec<(String, String)>,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub types: BTreeMap<String, Vec<String>>,
    pub injects: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub uses: BTreeMap<String, String>,
}

pub fn parse(c: &mut Contracts, file: &str, text: &str) -> Result<(), String> {
    // (target, buffer)
    enum T {
        None,
        Spec,
        Loop(usize),
        Ghost(String),
        Closure(usize, String),
        Outline(String, String),
        Inject(String),
        Uses(String),
    }
    let mut cur: Option<String> = None;
    let mut t = T::None;
    let mut buf = String::new();
    fn flush(c: &mut Contracts, cur: &Option<String>, t: &mut T, buf: &mut String) {
        let b = std::mem::take(buf);
        let tt = std::mem::replace(t, T::None);
        let f = cur.as_ref().map(|k| k.clone());
        match tt {
            T::None => {}
            T::Inject(p) => {
                c.injects.entry(p).or_default().push_str(&b);
            }
            T::Uses(p) => {
                c.uses.entry(p).or_default().push_str(&b);
            }
            _ => {
                let f = c.fns.get_mut(&f.expect("directive outside @fn")).unwrap();
                match tt {
                    T::Spec => f.spec.push_str(&b),
                    T::Loop(n) => {
                        f.loops.entry(n).or_default().push_str(&b);
                    }
                    T::Ghost(w) => f.ghost.push((w, b)),
                    T::Closure(n, h) => {
                        f.closures.insert(n, (h, b));
                    }
                    T::Outline(v, n) => f.outline.push((v, n, b)),
                    _ => unreachable!(),
                }
            }
        }
    }
    for (ln, line) in text.lines().enumerate() {
        let l = line.trim_start();
        if l.starts_with("//") {
            continue;
        }
        if let Some(d) = l.strip_prefix('@') {
            flush(c, &cur, &mut t, &mut buf);
            let mut w = d.splitn(2, char::is_whitespace);
            let k = w.next().unwrap();
            let rest = w.next().unwrap_or("").trim().to_string();
            match k {
                "fn" => {
                    // PATH [-> name]
                    let (p, r) = match rest.rsplit_once("->") {
                        Some((p, r)) => (p.trim().to_string(), Some(r.trim().to_string())),
                        None => (rest.clone(), None),
                    };
                    if c.fns.contains_key(&p) {
                        return Err(format!("{}:{}: duplicate contract {}", file, ln + 1, p));
                    }
                    c.fns.insert(p.clone(), FnContract { ret: r, file: file.to_string(), strlits: true, ..Default::default() });
                    cur = Some(p);
                    t = T::Spec;
                }
                "attr" => c.fns.get_mut(cur.as_ref().unwrap()).unwrap().attrs.push(rest),
                "trusted" => {
                    let f = c.fns.get_mut(cur.as_ref().unwrap()).unwrap();
                    f.trusted = true;
                    f.attrs.push("verifier::external_body".into());
                }
                "generics" => c.fns.get_mut(cur.as_ref().unwrap()).unwrap().generics = Some(rest),
                "broadcast" => c.fns.get_mut(cur.as_ref().unwrap()).unwrap().broadcast = rest,
                "lift" => {
                    let rest = rest.replace(" as ", "\u{1}as\u{1}").replacen("<&mut ", "<&mut\u{1}", 1);
                    let mut w = rest.splitn(2, char::is_whitespace);
                    let a = w.next().unwrap().replace('\u{1}', " ");
                    let b = w.next().unwrap_or("").replace('\u{1}', " ");
                    c.fns.get_mut(cur.as_ref().unwrap()).unwrap().lift = Some((a, b));
                }
                "subst" => {
                    let (a, b) = rest.split_once('=').ok_or("bad @subst")?;
                    c.fns.get_mut(cur.as_ref().unwrap()).unwrap().subst.push((a.trim().to_string(), b.trim().to_string()));
                }
                "call" => {
                    // NAME[#k] = path
                    let (a, b) = rest.split_once('=').ok_or("bad @call")?;
                    let a = a.trim();
                    let (n, k) = match a.split_once('#') {
                        Some((n, k)) => (n.to_string(), Some(k.parse().map_err(|_| "bad @call index")?)),
                        None => (a.to_string(), None),
                    };
                    c.fns.get_mut(cur.as_ref().unwrap()).unwrap().calls.push((n, k, b.trim().to_string()));
                }
                "unfold" => {
                    let (a, b) = rest.split_once(char::is_whitespace).ok_or("bad @unfold")?;
                    c.fns.get_mut(cur.as_ref().unwrap()).unwrap().unfolds.push((a.trim().to_string(), b.trim().to_string()));
                }
                "nostrlits" => c.fns.get_mut(cur.as_ref().unwrap()).unwrap().strlits = false,
                "spec" => t = T::Spec,
                "loop" => t = T::Loop(rest.parse().map_err(|_| format!("{}:{}: bad @loop", file, ln + 1))?),
                "ghost" => t = T::Ghost(rest),
                "closure" => {
                    let mut w = rest.splitn(2, char::is_whitespace);
                    let n = w.next().unwrap().parse().unwrap();
                    t = T::Closure(n, w.next().unwrap_or("").to_string());
                }
                "outline" => {
                    let mut w = rest.split_whitespace();
                    let v = w.next().unwrap().to_string();
                    let n = w.next().unwrap().to_string();
                    t = T::Outline(v, n);
                }
                "type" => {
                    let mut w = rest.splitn(2, char::is_whitespace);
                    let p = w.next().unwrap().to_string();
                    let a = w.next().unwrap_or("").trim().to_string();
                    let e = c.types.entry(p).or_default();
                    if !a.is_empty() {
                        e.push(a);
                    }
                }
                "impl" => {
                    c.impls.insert(rest, String::new());
                }
                "inject" => t = T::Inject(rest),
                "uses" => t = T::Uses(rest),
                "end" => {}
                _ => return Err(format!("{}:{}: unknown directive @{}", file, ln + 1, k)),
            }
            continue;
        }
        buf.push_str(line);
        buf.push('\n');
    }
    flush(c, &cur, &mut t, &mut buf);
    Ok(())
}

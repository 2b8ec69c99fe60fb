//! Stage A: resolve the `ident /* sym#ctxt */` annotations that
//! `-Zunpretty=expanded,hygiene` prints, at text level.
//! `x /* 12#0 */` -> `x`, `x /* 12#34 */` -> `x__hy34`; lifetimes, keywords,
//! `r#x` and `$x` lose the annotation.  String/char literals and ordinary
//! comments are skipped untouched.

const KW: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for",
    "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return",
    "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use",
    "where", "while", "async", "await", "dyn", "_", "union",
];

fn is_id0(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
fn is_id(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}

/// If at `p` (after optional whitespace) there is `/* <..digits> # <digits> */`,
/// return (ctxt, position after it).
fn annot(s: &[char], p: usize) -> Option<(String, usize)> {
    let mut q = p;
    while q < s.len() && s[q].is_whitespace() {
        q += 1;
    }
    if q + 1 >= s.len() || s[q] != '/' || s[q + 1] != '*' {
        return None;
    }
    q += 2;
    let mut body = String::new();
    while q + 1 < s.len() && !(s[q] == '*' && s[q + 1] == '/') {
        if !s[q].is_whitespace() {
            body.push(s[q]);
        }
        q += 1;
    }
    q += 2;
    let mut it = body.split('#');
    let a = it.next()?;
    let b = it.next()?;
    if it.next().is_some()
        || a.is_empty()
        || b.is_empty()
        || !a.chars().all(|c| c.is_ascii_digit())
        || !b.chars().all(|c| c.is_ascii_digit())
    {
        return None;
    }
    Some((b.to_string(), q))
}

pub fn run(text: &str) -> String {
    let s: Vec<char> = text.chars().collect();
    let mut o = String::with_capacity(text.len());
    let mut p = 0;
    while p < s.len() {
        let c = s[p];
        // comments
        if c == '/' && p + 1 < s.len() && s[p + 1] == '/' {
            while p < s.len() && s[p] != '\n' {
                p += 1;
            }
            continue; // comments (and doc comments) are dropped
        }
        if c == '/' && p + 1 < s.len() && s[p + 1] == '*' {
            let mut d = 0;
            while p + 1 < s.len() {
                if s[p] == '/' && s[p + 1] == '*' {
                    d += 1;
                    p += 2;
                } else if s[p] == '*' && s[p + 1] == '/' {
                    d -= 1;
                    p += 2;
                    if d == 0 {
                        break;
                    }
                } else {
                    p += 1;
                }
            }
            o.push(' ');
            continue;
        }
        // raw / byte strings
        if (c == 'r' || c == 'b') && (p == 0 || !is_id(s[p - 1])) {
            let mut q = p;
            if s[q] == 'b' {
                q += 1;
            }
            let raw = q < s.len() && s[q] == 'r';
            if raw {
                q += 1;
            }
            let mut h = 0;
            while raw && q < s.len() && s[q] == '#' {
                h += 1;
                q += 1;
            }
            if q < s.len() && s[q] == '"' && (raw || c == 'b') {
                let st = p;
                q += 1;
                if raw {
                    loop {
                        if s[q] == '"' && s[q + 1..].iter().take(h).filter(|&&x| x == '#').count() == h {
                            q += 1 + h;
                            break;
                        }
                        q += 1;
                    }
                } else {
                    while s[q] != '"' {
                        if s[q] == '\\' {
                            q += 1;
                        }
                        q += 1;
                    }
                    q += 1;
                }
                o.extend(&s[st..q]);
                p = q;
                continue;
            }
            if c == 'b' && p + 1 < s.len() && s[p + 1] == '\'' {
                let st = p;
                let mut q = p + 2;
                while s[q] != '\'' {
                    if s[q] == '\\' {
                        q += 1;
                    }
                    q += 1;
                }
                q += 1;
                o.extend(&s[st..q]);
                p = q;
                continue;
            }
        }
        if c == '"' {
            let st = p;
            p += 1;
            while s[p] != '"' {
                if s[p] == '\\' {
                    p += 1;
                }
                p += 1;
            }
            p += 1;
            o.extend(&s[st..p]);
            continue;
        }
        if c == '\'' {
            // char literal or lifetime
            if s[p + 1] == '\\' {
                let st = p;
                p += 2;
                p += 1;
                while s[p] != '\'' {
                    p += 1;
                }
                p += 1;
                o.extend(&s[st..p]);
                continue;
            }
            if p + 2 < s.len() && s[p + 2] == '\'' {
                o.extend(&s[p..p + 3]);
                p += 3;
                continue;
            }
            // lifetime
            let st = p;
            p += 1;
            while p < s.len() && is_id(s[p]) {
                p += 1;
            }
            o.extend(&s[st..p]);
            if let Some((_, q)) = annot(&s, p) {
                p = q;
            }
            continue;
        }
        if is_id0(c) {
            let st = p;
            while p < s.len() && is_id(s[p]) {
                p += 1;
            }
            let mut id: String = s[st..p].iter().collect();
            if id == "r" && p < s.len() && s[p] == '#' && p + 1 < s.len() && is_id0(s[p + 1]) {
                let st2 = p + 1;
                p += 1;
                while p < s.len() && is_id(s[p]) {
                    p += 1;
                }
                let t: String = s[st2..p].iter().collect();
                id = format!("r#{}", t);
            }
            o.push_str(&id);
            if let Some((ctx, q)) = annot(&s, p) {
                p = q;
                if ctx != "0" && !KW.contains(&id.as_str()) {
                    o.push_str(&format!("__hy{}", ctx));
                }
                // keep tokens apart
                if p < s.len() && is_id(s[p]) {
                    o.push(' ');
                }
            }
            continue;
        }
        if c.is_ascii_digit() {
            // number literal (avoid treating suffix as ident)
            while p < s.len() && (is_id(s[p]) || (s[p] == '.' && p + 1 < s.len() && s[p + 1].is_ascii_digit())) {
                o.push(s[p]);
                p += 1;
            }
            continue;
        }
        o.push(c);
        p += 1;
    }
    o
}

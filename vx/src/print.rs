//! Token printer: one statement per line, indentation by brace depth, and a
//! line map for the `__vx_b_N` / `__vx_e_N` markers (which are not printed).
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

pub struct Printer {
    pub out: String,
    line: usize,
    bol: bool,
    depth: usize,
    joint: bool,
    pub begin: BTreeMap<usize, usize>,
    pub end: BTreeMap<usize, usize>,
}

impl Printer {
    pub fn new() -> Self {
        Printer { out: String::new(), line: 1, bol: true, depth: 0, joint: false, begin: BTreeMap::new(), end: BTreeMap::new() }
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.line += 1;
            self.bol = true;
        }
        self.joint = false;
    }
    fn put(&mut self, t: &str, space: bool) {
        if self.bol {
            for _ in 0..self.depth.min(12) {
                self.out.push_str("  ");
            }
            self.bol = false;
        } else if space && !self.joint {
            self.out.push(' ');
        }
        self.joint = false;
        self.line += t.matches('\n').count();
        self.out.push_str(t);
    }
    pub fn raw(&mut self, t: &str) {
        self.nl();
        self.out.push_str(t);
        self.line += t.matches('\n').count();
        self.bol = t.ends_with('\n');
    }
    pub fn cur_line(&self) -> usize {
        self.line
    }
    pub fn ts(&mut self, ts: TokenStream) {
        for tt in ts {
            match tt {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let brace = g.delimiter() == Delimiter::Brace;
                    if g.delimiter() == Delimiter::None {
                        self.ts(g.stream());
                        continue;
                    }
                    self.put(a, brace);
                    if brace {
                        self.depth += 1;
                        if g.stream().is_empty() {
                        } else {
                            self.nl();
                        }
                    } else {
                        self.joint = true;
                    }
                    let empty = g.stream().is_empty();
                    self.ts(g.stream());
                    if brace {
                        self.depth -= 1;
                        if !empty {
                            self.nl();
                        }
                    } else {
                        self.joint = true;
                    }
                    self.put(b, false);
                    if brace {
                        // newline after a block unless followed by punctuation: cheap heuristic
                        self.nl();
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let sp = !matches!(c, ';' | ',' | '.' | '?');
                    self.put(&c.to_string(), sp);
                    if p.spacing() == Spacing::Joint || matches!(c, '.' | '!' | '#' | '\'' | '&') && c != '&' {
                        self.joint = p.spacing() == Spacing::Joint || c == '.' || c == '#';
                    }
                    if c == ';' || (c == ',' && false) {
                        self.nl();
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if let Some(n) = s.strip_prefix("__vx_b_") {
                        self.nl();
                        self.begin.insert(n.parse().unwrap(), self.line);
                        continue;
                    }
                    if let Some(n) = s.strip_prefix("__vx_e_") {
                        self.nl();
                        self.end.insert(n.parse().unwrap(), self.line);
                        continue;
                    }
                    self.put(&s, true);
                }
                TokenTree::Literal(l) => self.put(&l.to_string(), true),
            }
        }
    }
}

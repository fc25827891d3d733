//! Token printing with one statement or field per line, so that verifier
//! messages can be attributed to lines.
use proc_macro2::*;

pub fn print(ts: TokenStream) -> String {
    let mut p = P { s: String::new(), ind: 0, glue: true };
    p.stream(ts);
    p.s.push('\n');
    p.s
}
struct P { s: String, ind: usize, glue: bool }
impl P {
    fn nl(&mut self) {
        while self.s.ends_with(' ') { self.s.pop(); }
        if !self.s.ends_with('\n') { self.s.push('\n'); }
        for _ in 0..self.ind { self.s.push_str("  "); }
        self.glue = true;
    }
    fn word(&mut self, w: &str) {
        if !self.glue { self.s.push(' '); }
        self.s.push_str(w);
        self.glue = false;
    }
    fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        self.word("{");
                        let empty = g.stream().is_empty();
                        self.ind += 1;
                        if !empty { self.nl(); }
                        self.stream(g.stream());
                        self.ind -= 1;
                        if !empty { self.nl(); }
                        self.word("}");
                        // newline after a block unless something continues it
                        match v.get(i + 1) {
                            Some(TokenTree::Punct(p)) if p.as_char() == ',' || p.as_char() == ';' || p.as_char() == '.' || p.as_char() == '?' => {}
                            Some(TokenTree::Ident(id)) if id == "else" => {}
                            Some(_) => self.nl(),
                            None => {}
                        }
                    } else {
                        self.word(o);
                        self.glue = true;
                        self.stream(g.stream());
                        self.s.push_str(c);
                        self.glue = false;
                    }
                }
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == '\'' { self.word("'"); self.glue = true; continue; }
                    if p.spacing() == Spacing::Joint {
                        self.word(&c.to_string());
                        self.glue = true;
                    } else {
                        self.word(&c.to_string());
                        if c == ';' { self.nl(); }
                        if c == ',' && false { self.nl(); }
                    }
                }
            }
        }
    }
}

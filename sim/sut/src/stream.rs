//! An application that reads a stream of documents with one loader.
use yaml_peg::{
    parser::{Anchors, Loader, PError, Parser},
    repr::Repr,
    Node,
};

/// A loader and the text it is attached to.
pub struct Reader<'a, R: Repr> {
    pub loader: Option<Loader<'a, R>>,
    started: bool,
}

pub enum Got<R: Repr> {
    Doc(Node<R>),
    End,
    Bad(PError),
}

impl<'a, R: Repr> Reader<'a, R> {
    pub fn new(bytes: &'a [u8], cyclic: bool) -> Self {
        Self { loader: Some(Loader::new(bytes).cyclic_mode(cyclic)), started: false }
    }

    pub fn l(&mut self) -> &mut Loader<'a, R> {
        self.loader.as_mut().unwrap()
    }

    /// The directives and the gap at the start of a stream.
    pub fn prologue(&mut self) -> Result<(), PError> {
        let l = self.l();
        loop {
            match l.context(Parser::directive) {
                Ok(()) => {}
                Err(PError::Mismatch) => break,
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }

    /// Reads the next document, as the library does for a whole text.
    pub fn next_doc(&mut self) -> Got<R> {
        let first = !std::mem::replace(&mut self.started, true);
        if first {
            if let Err(e) = self.prologue() {
                return Got::Bad(e);
            }
        }
        let l = self.l();
        let _ = l.gap(true);
        if l.food().is_empty() && !first {
            return Got::End;
        }
        let f = l.food();
        let split = f.starts_with(b"---") && f.get(3).is_none_or(u8::is_ascii_whitespace);
        if split {
            let _ = l.sym_seq(b"---");
        } else if first {
            l.backward();
        } else {
            return Got::Bad(PError::Terminate { name: "no splitter", msg: String::new() });
        }
        match l.doc() {
            Ok(n) => Got::Doc(n),
            Err(e) => Got::Bad(e),
        }
    }

    /// Hands back what was read.
    pub fn consume(&mut self) {
        self.l().consume()
    }

    /// Bytes read so far in the attached text.
    pub fn at(&self) -> usize {
        self.loader.as_ref().unwrap().pos
    }

    /// Attaches other text; the cursor stays.
    pub fn attach(&mut self, bytes: &'a [u8]) {
        let l = self.l();
        let p = std::mem::take(&mut l.parser);
        l.parser = p.with_doc(bytes);
    }

    /// Puts the cursor at a place of the attached text.
    pub fn seek(&mut self, at: usize) {
        let l = self.l();
        let p = std::mem::take(&mut l.parser);
        l.parser = p.pos(at);
    }

    pub fn anchors(self) -> Vec<Anchors<R>> {
        self.loader.unwrap().get_anchors()
    }

    pub fn started(&mut self, s: bool) {
        self.started = s;
    }
}

#[cfg(not(feature = "sub_parsers"))]
pub fn sub_parser(doc: &[u8], at: usize, _: usize, _: usize, _: bool) -> String {
    use yaml_peg::repr::RcRepr;
    Loader::<RcRepr>::new(&doc[at..]).parse().map_or_else(|e| format!("! {e}"), |n| format!("{n:?}"))
}

/// Direct use of a sub-parser on damaged bytes.
#[cfg(feature = "sub_parsers")]
pub fn sub_parser(doc: &[u8], at: usize, which: usize, level: usize, flag: bool) -> String {
    use yaml_peg::{parser::TakeOpt, repr::RcRepr};
    let mut p = Parser::new(doc).pos(at);
    fn s<T: std::fmt::Debug>(r: Result<T, PError>) -> String {
        match r {
            Ok(v) => format!("{v:?}"),
            Err(e) => format!("! {e}"),
        }
    }
    let r = match which % 26 {
        0 => s(p.bound()),
        1 => s(p.complex_mapping()),
        2 => s(p.int()),
        3 => s(p.float()),
        4 => s(p.sci_float()),
        5 => s(p.string_quoted(b'\'', b"''")),
        6 => s(p.string_quoted(b'"', b"\\\"")),
        7 => s(p.string_plain(level, flag)),
        8 => s(p.string_literal(level)),
        9 => s(p.string_folded(level)),
        10 => s(p.identifier()),
        11 => s(p.tag()),
        12 => s(p.anchor()),
        13 => s(p.anchor_use()),
        14 => s(p.ws(TakeOpt::More(1))),
        15 => s(p.nl()),
        16 => s(p.inv(TakeOpt::Range(1, 3))),
        17 => s(p.ind_define(level.min(1))),
        18 => s(p.gap(flag)),
        19 => s(p.comment()),
        20 => s(p.directive()),
        21 => s(p.ind(level)),
        22 => Parser::escape(&String::from_utf8_lossy(&doc[at..])),
        _ => {
            let mut l = Loader::<RcRepr>::new(doc);
            l.parser = Parser::new(doc).pos(at);
            match which % 26 {
                23 => l.doc().map_or_else(|e| format!("! {e}"), |n| format!("{n:?}")),
                24 => {
                    let v: Vec<_> = (0..3).map(|_| l.doc().map_or_else(|e| format!("! {e}"), |n| format!("{n:?}"))).collect();
                    format!("{v:?} {}", l.doc_end())
                }
                _ => s(l.parse()),
            }
        }
    };
    format!("{r} left {}", p.food().len())
}

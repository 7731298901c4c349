//! Offline stand-in for the `peg` crate (runtime half).
//! PEG semantics (ordered choice, greedy repetition, farthest-failure error) as documented by rust-peg.
pub use peg_macros::parser;

pub mod runtime {
    use crate::error::ExpectedSet;

    pub enum RuleResult<T> {
        Matched(usize, T),
        Failed,
    }

    #[derive(Default)]
    pub struct ErrorState {
        pub max_pos: usize,
        pub quiet: usize,
        pub expected: ExpectedSet,
    }

    impl ErrorState {
        #[inline]
        pub fn mark_failure(&mut self, pos: usize, what: impl Fn() -> String) {
            if self.quiet > 0 {
                return;
            }
            if pos > self.max_pos {
                self.max_pos = pos;
                self.expected = ExpectedSet::default();
            }
            if pos == self.max_pos {
                self.expected.insert(what());
            }
        }
    }
}

pub trait ParseLiteral {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> runtime::RuleResult<()>;
}

impl ParseLiteral for str {
    #[inline]
    fn parse_string_literal(&self, pos: usize, literal: &str) -> runtime::RuleResult<()> {
        let end = pos + literal.len();
        if self.len() >= end && &self.as_bytes()[pos..end] == literal.as_bytes() {
            runtime::RuleResult::Matched(end, ())
        } else {
            runtime::RuleResult::Failed
        }
    }
}

pub mod str {
    use std::fmt;

    #[derive(PartialEq, Eq, Debug, Clone, Copy)]
    pub struct LineCol {
        pub line: usize,
        pub column: usize,
        pub offset: usize,
    }

    impl fmt::Display for LineCol {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}:{}", self.line, self.column)
        }
    }

    pub fn position_repr(input: &str, offset: usize) -> LineCol {
        let before = &input[..offset];
        let line = before.as_bytes().iter().filter(|&&c| c == b'\n').count() + 1;
        let column = before.chars().rev().take_while(|&c| c != '\n').count() + 1;
        LineCol { line, column, offset }
    }
}

pub mod error {
    use std::collections::BTreeSet;
    use std::fmt;

    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct ExpectedSet {
        expected: BTreeSet<String>,
    }

    impl ExpectedSet {
        pub(crate) fn insert(&mut self, s: String) {
            self.expected.insert(s);
        }

        pub fn tokens(&self) -> impl Iterator<Item = &str> + '_ {
            self.expected.iter().map(String::as_str)
        }
    }

    impl fmt::Display for ExpectedSet {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if self.expected.is_empty() {
                write!(f, "<unreported>")
            } else if self.expected.len() == 1 {
                write!(f, "{}", self.expected.iter().next().unwrap())
            } else {
                let mut it = self.expected.iter();
                write!(f, "one of {}", it.next().unwrap())?;
                for s in it {
                    write!(f, ", {s}")?;
                }
                Ok(())
            }
        }
    }

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct ParseError<L> {
        pub location: L,
        pub expected: ExpectedSet,
    }

    impl<L: fmt::Display> fmt::Display for ParseError<L> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "error at {}: expected {}", self.location, self.expected)
        }
    }

    impl<L: fmt::Display + fmt::Debug> std::error::Error for ParseError<L> {}
}

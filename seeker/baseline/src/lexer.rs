use std::str;


/// A lexer tokenizes an input character stream.
#[derive(Clone)]
pub struct Lexer<'a> {
    /// The current line position in the token stream.
    current_line_number: usize,
    /// The cursor position in the character stream.
    stream_position: usize,
    /// The input stream.
    stream: &'a [u8],
}

#[inline]
fn is_whitespace(ch: u8) -> bool {
    ch == b' ' || ch == b'\\' || ch == b'\t'
}

#[inline]
fn is_newline(ch: u8) -> bool {
    ch == b'\n' || ch == b'\r'
}

#[inline]
fn is_whitespace_or_newline(ch: u8) -> bool {
    is_whitespace(ch) || is_newline(ch)
}

impl<'a> Lexer<'a> {
    /// Construct a new tokenizer.
    pub fn new(stream: &'a str) -> Lexer<'a> {
        Lexer {
            current_line_number: 1,
            stream_position: 0,
            stream: stream.as_bytes(),
        }
    }

    /// Read the character at the current position in the byte stream without
    /// advancing the stream.
    #[inline]
    fn peek(&mut self) -> Option<&u8> {
        self.stream.get(self.stream_position)
    }

    /// Advance the lexer by one character in the byte stream.
    fn advance(&mut self) {
        match self.peek() {
            Some(&ch) if is_newline(ch) => {
                self.current_line_number += 1;
            }
            _ => {}
        }
        self.stream_position += 1;
    }

    /// Given a boolean predicate that operates on bytes, advance through the
    /// stream while the predicate is still satisfied.
    ///
    /// This function returns the number of characters skipped.
    fn skip_while<P: Fn(u8) -> bool>(&mut self, predicate: P) -> usize {
        let mut skipped = 0;
        loop {
            match self.peek() {
                Some(&ch) if predicate(ch) => {
                    self.advance();
                    skipped += 1;
                }
                Some(_) | None => {
                    break;
                }
            }
        }

        skipped
    }

    /// Given a predicate that operates on bytes, advance through stream while
    /// the predicates is not satisfied.
    ///
    /// That is, advance one character at a time unless the predicate is
    /// satisfied, and then stop. This function returns the number of characters
    /// skipped.
    fn skip_unless<P: Fn(u8) -> bool>(&mut self, not_predicate: P) -> usize {
        self.skip_while(|ch| !not_predicate(ch))
    }

    /// Consume a comment line without returning it.
    ///
    /// This function returns the number of characters skipped, i.e. the length
    /// of the comment line.
    fn skip_comment(&mut self) -> usize {
        match self.peek() {
            Some(b'#') => self.skip_unless(is_newline),
            _ => 0,
        }
    }

    /// Consume a string of whitespace characters without returning them.
    ///
    /// This function returns the number of whitspace characters consumed.
    fn skip_whitespace(&mut self) -> usize {
        self.skip_while(is_whitespace)
    }

    /// Fetch the next token from the input stream.
    ///
    /// This function advances the state of the input stream.
    fn next_token(&mut self) -> Option<&'a [u8]> {
        self.skip_whitespace();
        self.skip_comment();

        let start_position = self.stream_position;

        match self.peek() {
            Some(&ch) if is_newline(ch) => {
                self.advance();
                // A carriage return and a line feed together end one line.
                if ch == b'\r' && self.peek() == Some(&b'\n') {
                    self.stream_position += 1;
                }
                // Every line ending is the same token to the parsers.
                Some(&b"\n"[..])
            }
            Some(_) => {
                let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
                if skipped > 0 {
                    self.stream.get(start_position..self.stream_position)
                } else {
                    None
                }
            }
            None => None,
        }
    }
}

impl<'a> Iterator for Lexer<'a> {
    type Item = &'a [u8];

    fn next(&mut self) -> Option<Self::Item> {
        self.next_token()
    }
}

/// A lexical analyzer that caches tokens from the tokenizer to supports
/// peeking into the steam without advancing the stream, and lookahead.
#[derive(Clone)]
pub struct PeekableLexer<'a> {
    /// The tokenizer for the input byte stream.
    inner: Lexer<'a>,
    /// The lookahead cache for the lexer.
    cache: Option<Option<&'a str>>,
}

impl<'a> PeekableLexer<'a> {
    /// Construct a new lexical analyzer.
    pub fn new(lexer: Lexer<'a>) -> PeekableLexer<'a> {
        PeekableLexer {
            inner: lexer,
            cache: None,
        }
    }

    /// Read the next token from the token stream.
    ///
    /// Calling this function advances the state of the input stream.
    pub fn next_token(&mut self) -> Option<&'a str> {
        match self.cache.take() {
            Some(token) => token,
            None => self
                .inner
                .next_token()
                .map(|t| unsafe { str::from_utf8_unchecked(t) }),
        }
    }

    /// Read the next token from the token stream.
    ///
    /// Calling this function does not advance the state of the stream, but it
    /// may fill the cache on any given call.
    pub fn peek(&mut self) -> Option<&'a str> {
        match self.cache {
            Some(token) => token,
            None => {
                let next_token = self
                    .inner
                    .next_token()
                    .map(|t| unsafe { str::from_utf8_unchecked(t) });
                self.cache.replace(next_token);
                next_token
            }
        }
    }
}

impl<'a> Iterator for PeekableLexer<'a> {
    type Item = &'a str;

    fn next(&mut self) -> Option<Self::Item> {
        self.next_token()
    }
}

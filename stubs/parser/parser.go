// Package parser is an offline stand-in for vimagination.zapto.org/parser
// v1.0.0, written from its documented API (the module cannot be fetched here).
package parser

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"
)

// TokenType represents the type of token being read.
type TokenType int

// Constants TokenError (-2) and TokenDone (-1).
const (
	TokenDone  TokenType = -1 - iota
	TokenError
)

// Token represents data parsed from the stream.
type Token struct {
	Type TokenType
	Data string
}

// TokenFunc is the type that the tokeniser runs to produce the next token.
type TokenFunc func(*Tokeniser) (Token, TokenFunc)

// Errors.
var (
	ErrNoState      = errors.New("no state")
	ErrUnknownError = errors.New("unknown error")
)

// Tokeniser is a state machine to generate tokens from an input.
type Tokeniser struct {
	data       string
	start, pos int
	width      int
	state      TokenFunc
	Err        error
}

// NewStringTokeniser returns a Tokeniser which uses a string.
func NewStringTokeniser(str string) Tokeniser { return Tokeniser{data: str} }

// NewByteTokeniser returns a Tokeniser which uses a byte slice.
func NewByteTokeniser(data []byte) Tokeniser { return Tokeniser{data: string(data)} }

func (t *Tokeniser) next() rune {
	if t.pos >= len(t.data) {
		t.width = 0

		return -1
	}

	r, s := utf8.DecodeRuneInString(t.data[t.pos:])
	t.pos += s
	t.width = s

	return r
}

func (t *Tokeniser) backup() {
	t.pos -= t.width
	t.width = 0
}

// TokeniserState sets the state of the tokeniser.
func (t *Tokeniser) TokeniserState(tf TokenFunc) { t.state = tf }

// Get returns all of the characters read since the last Get.
func (t *Tokeniser) Get() string {
	s := t.data[t.start:t.pos]
	t.start = t.pos
	t.width = 0

	return s
}

// Len returns the number of bytes that has been read since the last Get.
func (t *Tokeniser) Len() int { return t.pos - t.start }

// Peek returns the next rune without being added to the buffer; -1 at the end.
func (t *Tokeniser) Peek() rune {
	r := t.next()

	t.backup()

	return r
}

// Accept returns true if the next character is in the given set.
func (t *Tokeniser) Accept(chars string) bool {
	if r := t.next(); r < 0 || !strings.ContainsRune(chars, r) {
		t.backup()

		return false
	}

	return true
}

// AcceptRun reads from the string as long as the characters are in the set.
func (t *Tokeniser) AcceptRun(chars string) rune {
	for {
		if c := t.next(); c < 0 || !strings.ContainsRune(chars, c) {
			t.backup()

			return c
		}
	}
}

// Except returns true if the next character is not in the given set.
func (t *Tokeniser) Except(chars string) bool {
	if r := t.next(); r < 0 || strings.ContainsRune(chars, r) {
		t.backup()

		return false
	}

	return true
}

// ExceptRun reads from the string until one of the characters is found.
func (t *Tokeniser) ExceptRun(chars string) rune {
	for {
		if c := t.next(); c < 0 || strings.ContainsRune(chars, c) {
			t.backup()

			return c
		}
	}
}

// Done is a TokenFunc used to indicate that there are no more tokens.
func (t *Tokeniser) Done() (Token, TokenFunc) {
	t.Err = io.EOF

	return Token{Type: TokenDone}, (*Tokeniser).Done
}

// Error represents an error state.
func (t *Tokeniser) Error() (Token, TokenFunc) {
	if t.Err == nil {
		t.Err = ErrUnknownError
	}

	return Token{Type: TokenError, Data: t.Err.Error()}, (*Tokeniser).Error
}

func (t *Tokeniser) get() Token {
	if errors.Is(t.Err, io.EOF) {
		return Token{Type: TokenDone}
	}

	if t.state == nil {
		t.Err = ErrNoState
		t.state = (*Tokeniser).Error
	}

	var tk Token

	tk, t.state = t.state(t)

	if tk.Type == TokenError && errors.Is(t.Err, io.EOF) {
		t.Err = io.ErrUnexpectedEOF
	}

	return tk
}

// GetToken runs the state machine to retrieve the next token.
func (t *Tokeniser) GetToken() (Token, error) {
	tk := t.get()
	if tk.Type == TokenError {
		return tk, t.Err
	}

	return tk, nil
}

// Parser is a type used to get tokens in a simple, controlled way.
type Parser struct {
	Tokeniser
	tokens []Token
	peeked bool
}

// New creates a new Parser from the given Tokeniser.
func New(t Tokeniser) Parser { return Parser{Tokeniser: t} }

func (p *Parser) next() Token {
	if p.peeked {
		p.peeked = false
	} else {
		p.tokens = append(p.tokens, p.Tokeniser.get())
	}

	return p.tokens[len(p.tokens)-1]
}

func (p *Parser) backup() { p.peeked = true }

// Get retrieves all the tokens read since the last Get.
func (p *Parser) Get() []Token {
	if p.peeked {
		n := len(p.tokens) - 1
		tks := append([]Token{}, p.tokens[:n]...)
		p.tokens = append(p.tokens[:0], p.tokens[n])

		return tks
	}

	tks := append([]Token{}, p.tokens...)
	p.tokens = p.tokens[:0]

	return tks
}

// Len returns how many tokens have been read.
func (p *Parser) Len() int {
	if p.peeked {
		return len(p.tokens) - 1
	}

	return len(p.tokens)
}

// Peek takes a look at the next token.
func (p *Parser) Peek() Token {
	tk := p.next()

	p.backup()

	return tk
}

// Accept will accept a token with one of the given types.
func (p *Parser) Accept(types ...TokenType) bool {
	tk := p.next()

	for _, t := range types {
		if tk.Type == t {
			return true
		}
	}

	p.backup()

	return false
}

// AcceptRun will keep accepting tokens as long as they match one of the types.
func (p *Parser) AcceptRun(types ...TokenType) TokenType {
	for {
		if tk := p.Peek(); !p.Accept(types...) {
			return tk.Type
		}
	}
}

// Except will accept any token not of the given types.
func (p *Parser) Except(types ...TokenType) bool {
	tk := p.next()

	for _, t := range types {
		if tk.Type == t {
			p.backup()

			return false
		}
	}

	return true
}

// ExceptRun will keep accepting tokens until one of the types is found.
func (p *Parser) ExceptRun(types ...TokenType) TokenType {
	for {
		if tk := p.Peek(); !p.Except(types...) || tk.Type < 0 {
			return tk.Type
		}
	}
}

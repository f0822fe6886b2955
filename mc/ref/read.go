package ref

import (
	"errors"
	"math/big"
	"strconv"
	"strings"
	"unicode"
)

var ErrEOF = errors.New("eof")

type reader struct {
	s    []rune
	i    int
	open bool
}

// ReadOpen reads all data of s; open tells that the text holds something whose
// meaning is left open (a closing bracket or the end where a datum should be, a
// digit outside ASCII, a lone dot before white space that is no space).
func ReadOpen(s string) (l []Val, open bool, err error) {
	r := &reader{s: []rune(s)}
	for {
		v, err := r.datum()
		if err == ErrEOF {
			return l, r.open, nil
		}
		if err != nil {
			return l, r.open, err
		}
		l = append(l, v)
	}
}

// Read reads the first datum of s: the reference grammar of complete text.
func Read(s string) (Val, error) {
	r := &reader{s: []rune(s)}
	return r.datum()
}

// ReadAll reads all data of s.
func ReadAll(s string) ([]Val, error) {
	r := &reader{s: []rune(s)}
	var l []Val
	for {
		v, err := r.datum()
		if err == ErrEOF {
			return l, nil
		}
		if err != nil {
			return l, err
		}
		l = append(l, v)
	}
}

func MustRead(s string) Val {
	v, err := Read(s)
	if err != nil {
		panic("ref.Read " + s + ": " + err.Error())
	}
	return v
}

func (r *reader) skip() {
	for r.i < len(r.s) {
		c := r.s[r.i]
		if unicode.IsSpace(c) {
			r.i++
		} else if c == ';' {
			for r.i < len(r.s) && r.s[r.i] != '\n' {
				r.i++
			}
		} else {
			return
		}
	}
}

func (r *reader) peek(o int) rune {
	if r.i+o < len(r.s) {
		return r.s[r.i+o]
	}
	return -1
}

func symChar(c rune) bool {
	return c >= 0 && unicode.IsGraphic(c) && !unicode.IsSpace(c) && !strings.ContainsRune("();\"'`|[]{}#,", c)
}

func isDigit(c rune) bool { return c >= '0' && c <= '9' }

var errSyntax = errors.New("syntax")

func (r *reader) closeAt(close rune) (bool, error) {
	r.skip()
	c := r.peek(0)
	if c == -1 {
		return false, errors.New("unexpected end")
	}
	if c == close {
		r.i++
		return true, nil
	}
	if c == ')' || c == ']' || c == '}' {
		return false, errSyntax
	}
	return false, nil
}

func (r *reader) inner() (Val, error) {
	v, err := r.datum()
	if err == ErrEOF {
		err = errors.New("unexpected end")
	}
	return v, err
}

func (r *reader) datum() (Val, error) {
	r.skip()
	c := r.peek(0)
	if c == ')' || c == ']' || c == '}' {
		r.open = true
	}
	if c > 127 && unicode.IsNumber(c) || c == '-' && r.peek(1) > 127 && unicode.IsNumber(r.peek(1)) || c == '.' && r.peek(1) != ' ' && unicode.IsSpace(r.peek(1)) {
		r.open = true
	}
	switch {
	case c == -1:
		return nil, ErrEOF
	case c == '(':
		r.i++
		var l []Val
		for {
			done, err := r.closeAt(')')
			if err != nil {
				return nil, err
			}
			if done {
				return List(l...), nil
			}
			if r.peek(0) == '.' && r.peek(1) == ' ' {
				r.i++
				t, err := r.inner()
				if err != nil {
					return nil, err
				}
				done, err := r.closeAt(')')
				if err != nil {
					return nil, err
				}
				if !done {
					return nil, errSyntax
				}
				return ListTail(l, t), nil
			}
			v, err := r.inner()
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
	case c == '[':
		r.i++
		var l []Val
		for {
			done, err := r.closeAt(']')
			if err != nil {
				return nil, err
			}
			if done {
				break
			}
			v, err := r.inner()
			if err != nil {
				return nil, err
			}
			switch x := v.(type) {
			case int64:
				if x < 0 || x > 255 {
					return nil, errSyntax
				}
			case Sym, *Pair, nil:
			default:
				return nil, errSyntax
			}
			l = append(l, v)
		}
		b := make([]byte, 0, len(l))
		for _, v := range l {
			n, ok := v.(int64)
			if !ok {
				return List(Sym("list->bytearray"), Cons(Sym("list"), List(l...))), nil
			}
			b = append(b, byte(n))
		}
		return &Bytes{b}, nil
	case c == '{':
		r.i++
		l := []Val{Sym("make-frame")}
		for {
			done, err := r.closeAt('}')
			if err != nil {
				return nil, err
			}
			if done {
				return List(l...), nil
			}
			v, err := r.inner()
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
	case c == '\'' || c == '`' || c == ',':
		r.i++
		n := "quote"
		if c == '`' {
			n = "quasiquote"
		} else if c == ',' {
			n = "unquote"
			if r.peek(0) == '@' {
				r.i++
				n = "unquote-splicing"
			}
		}
		v, err := r.datum()
		if err != nil {
			return nil, err
		}
		return List(Sym(n), v), nil
	case c == '"':
		r.i++
		var b strings.Builder
		for {
			c := r.peek(0)
			r.i++
			switch c {
			case -1:
				return nil, ErrEOF
			case '"':
				return &Str{b.String()}, nil
			case '\\':
				d := r.peek(0)
				r.i++
				if d == -1 {
					return nil, ErrEOF
				}
				if d == 'n' {
					d = '\n'
				}
				b.WriteRune(d)
			default:
				b.WriteRune(c)
			}
		}
	case c == '#':
		d := r.peek(1)
		switch d {
		case 't':
			r.i += 2
			return true, nil
		case 'f':
			r.i += 2
			return false, nil
		case 'x':
			r.i += 2
			return r.radix("0123456789abcdefABCDEF", 16)
		case 'b':
			r.i += 2
			return r.radix("01", 2)
		}
		return nil, errSyntax
	case c == '0' && r.peek(1) == 'x':
		r.i += 2
		return r.radix("0123456789abcdefABCDEF", 16)
	case isDigit(c) || c == '-' && isDigit(r.peek(1)):
		st := r.i
		r.i++
		fl := false
		for {
			d := r.peek(0)
			if d == '.' && !fl {
				fl = true
			} else if !isDigit(d) {
				if d > 127 && unicode.IsNumber(d) {
					r.open = true
				}
				break
			}
			r.i++
		}
		t := string(r.s[st:r.i])
		if fl {
			f, err := strconv.ParseFloat(t, 32)
			if err != nil {
				return nil, err
			}
			return float32(f), nil
		}
		n, ok := new(big.Int).SetString(t, 10)
		if !ok || !n.IsInt64() {
			return nil, errSyntax
		}
		return n.Int64(), nil
	case symChar(c):
		st := r.i
		for symChar(r.peek(0)) {
			r.i++
		}
		return Sym(r.s[st:r.i]), nil
	}
	return nil, errSyntax
}

func (r *reader) radix(digits string, base int) (Val, error) {
	st := r.i
	for r.peek(0) != -1 && strings.ContainsRune(digits, r.peek(0)) {
		r.i++
	}
	n, ok := new(big.Int).SetString(string(r.s[st:r.i]), base)
	if !ok || !n.IsInt64() {
		return nil, errSyntax
	}
	return n.Int64(), nil
}

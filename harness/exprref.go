package harness

import (
	"unicode"
)

// refParse is an independent recursive descent parser for the relation expression language:
//
//	expr := term (op term)*      op := + | & | -      (one precedence, left associative)
//	term := _this | identifier | identifier -> identifier | ( expr )
//
// identifiers are letters, digits and underscores; white space separates tokens and is otherwise ignored.
// A text has at most ten thousand tokens.
func refParse(s string) (*Expr, bool) {
	toks, ok := refLex(s)
	if !ok || len(toks) > 10000 {
		return nil, false
	}
	p := &refParser{toks: toks}
	e := p.expr()
	if e == nil || p.pos != len(p.toks) {
		return nil, false
	}
	return e, true
}

func refLex(s string) ([]string, bool) {
	rs := []rune(s)
	for _, r := range s {
		if r == unicode.ReplacementChar {
			return nil, false
		}
	}
	isId := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' }
	var out []string
	for i := 0; i < len(rs); {
		switch r := rs[i]; {
		case unicode.IsSpace(r):
			i++
		case r == '(' || r == ')' || r == '+' || r == '&':
			out = append(out, string(r))
			i++
		case r == '-':
			if i+1 < len(rs) && rs[i+1] == '>' {
				out = append(out, "->")
				i += 2
			} else {
				out = append(out, "-")
				i++
			}
		case isId(r):
			j := i
			for j < len(rs) && isId(rs[j]) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		default:
			return nil, false
		}
	}
	return out, true
}

type refParser struct {
	toks []string
	pos  int
}

func (p *refParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func isOp(t string) bool { return t == "+" || t == "&" || t == "-" }

func isIdent(t string) bool {
	switch t {
	case "", "+", "&", "-", "->", "(", ")", "_this":
		return false
	}
	return true
}

func (p *refParser) expr() *Expr {
	acc := p.term()
	if acc == nil {
		return nil
	}
	for isOp(p.peek()) {
		o := p.peek()
		p.pos++
		t := p.term()
		if t == nil {
			return nil
		}
		acc = op(acc, o, t)
	}
	return acc
}

func (p *refParser) term() *Expr {
	switch t := p.peek(); {
	case t == "_this":
		p.pos++
		return this()
	case t == "(":
		p.pos++
		e := p.expr()
		if e == nil || p.peek() != ")" {
			return nil
		}
		p.pos++
		return e
	case isIdent(t):
		p.pos++
		if p.peek() == "->" {
			p.pos++
			b := p.peek()
			if !isIdent(b) {
				return nil
			}
			p.pos++
			return ttu(t, b)
		}
		return cu(t)
	}
	return nil
}

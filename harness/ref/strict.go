package ref

import "fmt"

// Tok is a tag with its content.
type Tok struct {
	Num  byte   `json:"num"`
	Ctx  bool   `json:"ctx"`
	Kind int    `json:"kind"` // 0 primitive, 1 opening, 2 closing
	Bool bool   `json:"bool,omitempty"`
	Body []byte `json:"body,omitempty"`
}

// Enc is the encoding of the tag.
func (k Tok) Enc() []byte {
	switch {
	case k.Kind == 1:
		return Open(k.Num)
	case k.Kind == 2:
		return Close(k.Num)
	case !k.Ctx && k.Num == 1 && len(k.Body) == 0:
		n := uint32(0)
		if k.Bool {
			n = 1
		}
		return Tag(1, false, n)
	}
	return append(Tag(k.Num, k.Ctx, uint32(len(k.Body))), k.Body...)
}

func (k Tok) String() string {
	switch {
	case k.Kind == 1:
		return fmt.Sprintf("{%d", k.Num)
	case k.Kind == 2:
		return fmt.Sprintf("%d}", k.Num)
	case k.Ctx:
		return fmt.Sprintf("[%d]%x", k.Num, k.Body)
	case k.Num == 1 && len(k.Body) == 0:
		return fmt.Sprint(k.Bool)
	}
	return fmt.Sprintf("app%d:%x", k.Num, k.Body)
}

// EncToks is the encoding of the tags.
func EncToks(ks []Tok) (b []byte) {
	for _, k := range ks {
		b = append(b, k.Enc()...)
	}
	return
}

// Toks takes octets apart.
func Toks(b []byte) (out []Tok, err error) {
	p := parser{b: b}
	for len(p.b) > 0 && p.err == nil {
		n, c, k, l := p.tag()
		t := Tok{Num: n, Ctx: c, Kind: k}
		switch {
		case k != 0:
		case !c && n == 1:
			t.Bool = l > 0
		default:
			t.Body = append([]byte{}, p.take(l)...)
		}
		out = append(out, t)
	}
	return out, p.err
}

// Verdict says whether the standard's grammar allows a message. A message is
// left unjudged if devices or decoders may reasonably differ about it.
type Verdict int

const (
	Valid Verdict = iota
	Invalid
	Unjudged
)

func (v Verdict) String() string { return [...]string{"valid", "invalid", "not judged"}[v] }

type judge struct {
	k []Tok
	v Verdict
}

func (j *judge) end() bool { return len(j.k) == 0 }

// bad sets the verdict, the first one counts.
func (j *judge) bad(v Verdict) {
	if j.v == Valid {
		j.v = v
	}
	j.k = nil
}

func (j *judge) next() (k Tok) {
	if j.end() {
		j.bad(Invalid)
		return
	}
	k, j.k = j.k[0], j.k[1:]
	return
}

func (j *judge) is(num byte, ctx bool, kind int) bool {
	return !j.end() && j.k[0].Num == num && j.k[0].Kind == kind && (kind != 0 || j.k[0].Ctx == ctx)
}

// need takes a primitive of the given tag, from least to most octets.
func (j *judge) need(num byte, ctx bool, least, most int) {
	if !j.is(num, ctx, 0) || len(j.k[0].Body) < least || len(j.k[0].Body) > most {
		j.bad(Invalid)
		return
	}
	j.next()
}

func (j *judge) mark(num byte, kind int) {
	if !j.is(num, true, kind) {
		j.bad(Invalid)
		return
	}
	j.next()
}

// JudgeVal judges an application value.
func JudgeVal(k Tok) Verdict {
	exact := func(n int) Verdict {
		if len(k.Body) == n {
			return Valid
		}
		return Invalid
	}
	switch k.Num {
	case 0:
		return exact(0)
	case 1:
		if len(k.Body) > 0 {
			return Unjudged
		}
		return Valid
	case 2, 3, 9:
		switch n := len(k.Body); {
		case n == 0:
			return Invalid
		case n > 4:
			return Unjudged
		}
		return Valid
	case 4, 10, 11, 12:
		return exact(4)
	case 5:
		return exact(8)
	case 6:
		return Valid
	case 7:
		if len(k.Body) == 0 {
			return Invalid
		}
		if k.Body[0] == 0 {
			return Valid
		}
		return Unjudged
	case 8:
		switch {
		case len(k.Body) == 0, k.Body[0] > 7, len(k.Body) == 1 && k.Body[0] > 0:
			return Invalid
		case len(k.Body) > 16: // more than the library has room for
			return Unjudged
		}
		return Valid
	}
	return Invalid
}

// values takes values up to the closing tag.
func (j *judge) values(num byte) {
	depth := 0
	for j.v == Valid {
		k := j.next()
		switch {
		case j.v != Valid:
		case k.Kind == 1 && k.Num == 2, depth > 0 && k.Kind == 2 && k.Num != num:
			// Inside constructed values of unknown syntax
			j.bad(Unjudged)
		case k.Kind == 1:
			depth++
		case k.Kind == 2 && depth > 0:
			depth--
		case k.Kind == 2:
			if k.Num != num {
				j.bad(Invalid)
			}
			return
		case k.Ctx:
		default:
			if v := JudgeVal(k); v != Valid {
				j.bad(v)
			}
		}
	}
}

// Judge judges a message of the given kind.
func Judge(kind string, ks []Tok) Verdict {
	j := &judge{k: ks}
	switch kind {
	case "value":
		for !j.end() && j.v == Valid {
			k := j.next()
			if k.Ctx || k.Kind != 0 {
				j.bad(Invalid)
			} else if v := JudgeVal(k); v != Valid {
				j.bad(v)
			}
		}
	case "read reply":
		j.need(0, true, 4, 4)
		j.need(1, true, 1, 4)
		if j.v == Valid && j.end() {
			return Unjudged // a request
		}
		if j.is(2, true, 0) {
			j.need(2, true, 1, 4)
			if j.v == Valid && j.end() {
				return Unjudged
			}
		}
		j.mark(3, 1)
		j.values(3)
	case "read multiple reply":
		for !j.end() && j.v == Valid {
			j.need(0, true, 4, 4)
			j.mark(1, 1)
			for j.v == Valid && !j.is(1, true, 2) {
				j.need(2, true, 1, 4)
				if j.is(3, true, 0) {
					j.need(3, true, 1, 4)
				}
				j.mark(4, 1)
				j.values(4)
			}
			j.mark(1, 2)
		}
	case "error":
		if !j.end() && j.k[0].Kind == 1 {
			n := j.next().Num
			j.need(9, false, 1, 4)
			j.need(9, false, 1, 4)
			j.mark(n, 2)
		} else {
			j.need(9, false, 1, 4)
			j.need(9, false, 1, 4)
		}
	case "i-am":
		j.need(12, false, 4, 4)
		j.need(2, false, 1, 4)
		j.need(9, false, 1, 4)
		j.need(2, false, 1, 4)
	case "who-is":
		if j.end() {
			return Unjudged
		}
		j.need(0, true, 1, 4)
		j.need(1, true, 1, 4)
	default:
		panic(kind)
	}
	if j.v == Valid && !j.end() {
		return Unjudged // followed by something
	}
	return j.v
}

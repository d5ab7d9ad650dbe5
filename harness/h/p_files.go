package h

import (
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// ---- L01: files are Shift-JIS

// sjis is any character of Shift-JIS: its bytes, and the character as the code
// table (sjis.go; single bytes: ASCII and half-width katakana) has it.
func sjis(n string) ([]byte, rune) {
	k := sv.Concrete(sv.Int(n, 0, len(sjisLeads)+1))
	switch {
	case k == 0:
		c := sv.RuneRange(n+"c", 0x20, 0x7e)
		return []byte{byte(c)}, c
	case k == 1:
		c := sv.RuneRange(n+"c", 0xa1, 0xdf)
		return []byte{byte(c)}, c - 0xa1 + 0xff61
	}
	return sjisOf(n, k-2)
}

// sjisOf is any character with one of the lead bytes.
func sjisOf(n string, k int) ([]byte, rune) {
	t := sv.RuneRange(n+"t", 0x40, 0xfc)
	r := rune(sjisTable[k*189+int(t)-0x40])
	sv.Assume(r != 0)
	return []byte{sjisLeads[k], byte(t)}, r
}

// some lead bytes: symbols, letters and kana, Greek and Cyrillic, kanji, extensions
var someLeads = []int{0x81, 0x82, 0x83, 0x84, 0x87, 0x88, 0x95, 0x9f, 0xe0, 0xea, 0xed, 0xfa, 0xfc}

func someSjis(n string) ([]byte, rune) {
	l := someLeads[sv.Concrete(sv.Int(n, 0, len(someLeads)-1))]
	for k, x := range sjisLeads {
		if int(x) == l {
			return sjisOf(n, k)
		}
	}
	return nil, 0
}

type chars struct {
	b []byte
	r []rune
}

func (c *chars) add(s string) {
	c.b = append(c.b, s...)
	c.r = append(c.r, []rune(s)...)
}

// fill replaces each ? by the next character.
func fill(s string, pad int, l []chars) *chars {
	c := &chars{}
	for i := 0; i < pad; i++ {
		c.b = append(c.b, ' ')
		c.r = append(c.r, ' ')
	}
	k := 0
	for _, x := range s {
		if x == '?' {
			c.b = append(c.b, l[k%len(l)].b...)
			c.r = append(c.r, l[k%len(l)].r...)
			k++
			continue
		}
		c.add(string([]rune{x}))
	}
	return c
}

// decodes: the file is parsed as the characters say.
func decodes(c *chars) {
	sv.FileBytes(progPath, c.b)
	n, err := parser.ParseProgram(progPath)
	same(eProgram, c.r, err, func(d *dump) { d.program(n.Program) })
}

// decodesUnit: the same for a unit that a program uses.
func decodesUnit(c *chars) {
	sv.FileBytes(progPath, []byte("program pp ; uses uu in 'unit1.pas' ; begin end ."))
	sv.FileBytes(unitPath, c.b)
	n, err := parser.ParseProgram(progPath)
	same(eUnit, c.r, err, func(d *dump) { d.unit(n.Units[0]) })
}

func same(entry int, text []rune, err error, tree func(d *dump)) {
	want := runRef(entry, text)
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		if want.stop == nil {
			sv.Fail("a correct file is rejected: " + sv.Force(err.Error()))
		}
		return
	}
	d := &dump{}
	tree(d)
	sv.Observe("result", num(len(d.out)))
	if want.stop != nil {
		sv.Assert(want.stop.kind == "unspecified", "a malformed file is accepted")
		return
	}
	sv.Cover("accept")
	sameItems(text, d.out, want.r.out, cmpPos)
}

var sjisTexts = []string{
	"program pp ; var xx : Byte ; begin xx := 'a?b' ; yy ( '?' ) end .",
	"program pp ; { ? } var xx : Byte ; (* ?*) begin // ?\n xx := 1 ; { ?} end .",
	"program pp ; const ?a = 1 ; x? = '?' ; begin x?x := ?a end .",
	"program ? ; var ? : Byte ; begin ? := 1 end .",
	"program pp ; begin xx ? yy end .",
}

var sjisUnits = []string{
	"unit uu ; interface const xx = 'a?b' ; implementation { ?} initialization yy ( '?' ) end .",
	"unit uu ; // ?\n interface type t? = Byte ; var v? : t? ; implementation end .",
}

// L01_Program: 5 programs with any character of Shift-JIS (ASCII, half-width
// katakana, 45 lead bytes with any trail byte) in strings, comments, names or
// between them.
// cover: accept reject
func L01_Program() {
	b, r := sjis("c")
	s := sjisTexts[sv.Concrete(sv.Int("text", 0, len(sjisTexts)-1))]
	decodes(fill(s, 0, []chars{{b, []rune{r}}}))
}

// L01_Unit: 2 units of a program with any character of Shift-JIS.
// cover: accept
func L01_Unit() {
	b, r := sjis("c")
	s := sjisUnits[sv.Concrete(sv.Int("text", 0, len(sjisUnits)-1))]
	decodesUnit(fill(s, 0, []chars{{b, []rune{r}}}))
}

// L01_Two: two characters in a row, with 13 lead bytes each and any trail bytes,
// in strings, comments or names of programs and units.
// cover: accept
func L01_Two() {
	b1, r1 := someSjis("c")
	b2, r2 := someSjis("d")
	l := []chars{{append(b1, b2...), []rune{r1, r2}}}
	k := sv.Concrete(sv.Int("text", 0, 2))
	if k < 2 {
		decodes(fill(sjisTexts[k], 0, l))
	} else {
		decodesUnit(fill(sjisUnits[0], 0, l))
	}
}

// L01_Long: a character (13 lead bytes, any trail byte) in a string, a comment and
// a name, each character at any place around the multiples of 512, 4096 and 8192 bytes
// of the file of a program or a unit.
// cover: accept
func L01_Long() {
	b, r := someSjis("c")
	l := []chars{{b, []rune{r}}}
	at := []int{510, 4094, 8190}[sv.Concrete(sv.Int("at", 0, 2))] + sv.Concrete(sv.Int("off", 0, 3))
	k := sv.Concrete(sv.Int("text", 0, 2))
	switch k {
	case 0:
		decodes(fill("program pp ; begin xx ( '?' ) ; yy := 1 end .", at-24, l))
	case 1:
		decodes(fill("program pp ; { ?} begin yy end .", at-15, l))
	case 2:
		decodesUnit(fill("unit uu ; interface const xx = '?' ; implementation end .", at-32, l))
	}
}

// L01X_Two: two characters in a row, each any character of Shift-JIS, in strings,
// comments or names of programs and units.
// cover: accept
func L01X_Two() {
	b1, r1 := sjis("c")
	b2, r2 := sjis("d")
	l := []chars{{append(b1, b2...), []rune{r1, r2}}}
	k := sv.Concrete(sv.Int("text", 0, 2))
	if k < 2 {
		decodes(fill(sjisTexts[k], 0, l))
	} else {
		decodesUnit(fill(sjisUnits[0], 0, l))
	}
}

// L01_Bytes: any two bytes, whether they are Shift-JIS or not, in a string, a comment, a
// name or at the end of a program or a unit: the file is parsed or rejected.
// cover: accept reject
func L01_Bytes() {
	b := []byte{byte(sv.Concrete(sv.Int("b", 0x80, 0xff))), byte(sv.Int("c", 0x20, 0xff))}
	l := []chars{{b, nil}}
	k := sv.Concrete(sv.Int("text", 0, 5))
	var c *chars
	unit := false
	switch k {
	case 0, 1, 2:
		c = fill(sjisTexts[k], 0, l)
	case 3:
		c = fill("program pp ; begin end .?", 0, l)
	case 4:
		c, unit = fill(sjisUnits[0], 0, l), true
	case 5:
		c, unit = fill("unit uu ; interface implementation end .?", 0, l), true
	}
	sv.FileBytes(progPath, c.b)
	if unit {
		sv.FileBytes(progPath, []byte("program pp ; uses uu in 'unit1.pas' ; begin end ."))
		sv.FileBytes(unitPath, c.b)
	}
	_, err := parser.ParseProgram(progPath)
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		return
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
}

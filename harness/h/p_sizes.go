package h

import "tpharness/sv"

// ---- long names, numbers and strings in every place of the grammar

// sized: ?1 to ?9 stand for names, # for numbers, $ for strings
var sized = []struct {
	prop  int
	entry int
	text  string
}{
	{2, eExpr, "?1 . ?2 [ # ] + ?3 ( $ , # ) - # * ?4"},
	{2, eExpr, "[ # , ?1 .. # , $ ] <= not ( $ + ?2 ) div #"},
	{3, eStmt, "for ?1 := # to # do ?2 ( $ , # )"},
	{3, eStmt, "case ?1 of # : ?2 ; # .. # : ?3 := $ ; ?4 : ?5 else ?6 end"},
	{3, eBlock, "label ?1 ; begin ?1 : with ?2 , ?3 do goto ?1 ; while ?4 > # do raise ?5 ( $ ) at # ; try ?6 except on ?7 : ?8 do ?7 end end"},
	{4, eTypes, "type ?1 = # .. # ; ?2 = string [ # ] ; ?3 = ( ?4 , ?5 = # ) ; ?6 = array [ # .. # ] of ?1 ; ?7 = ^ ?8 ;"},
	{4, eTypes, "type ?1 = record ?2 , ?3 : ?4 ; case ?5 : Byte of # , # : ( ?6 : ?7 ) end ; ?8 = set of # .. # ;"},
	{4, eTypes, "type ?1 = function ( ?2 : ?3 = # ; const ?4 : array of ?5 ) : ?6 ; ?7 = class of ?8 ;"},
	{4, eDecls, "const ?1 = # ; ?2 = $ ; ?3 : Byte = # ;"},
	{4, eDecls, "var ?1 , ?2 : ?3 ; ?4 : string = $ ; ?5 : Byte absolute ?1 ; threadvar ?6 : ?7 ;"},
	{5, eTypes, "type ?1 = class ( ?2 , ?3 ) ?4 : ?5 ; procedure ?6 ( ?7 : ?8 = # ) ; virtual ; property ?9 : Byte index # read ?4 default # ; end ;"},
	{5, eTypes, "type ?1 = class private ?2 , ?3 : Byte ; public function ?4 : ?5 ; property ?6 [ ?7 : ?8 ] : Byte read ?2 write ?3 stored ?2 ; end ;"},
	{6, eProgram, "program ?1 ; uses ?2 , ?3 ; procedure ?4 ( var ?5 : Byte ; ?6 : Char = $ ) ; external $ name $ ; exports ?4 name $ index # ; begin ?7 end ."},
	{6, eUnit, "unit ?1 ; interface uses ?2 , ?3 ; function ?4 ( ?5 : ?6 = # ) : ?7 ; stdcall ; implementation uses ?8 ; initialization ?9 end ."},
}

var wordSizes = []int{1, 2, 4, 5, 8, 9, 10, 11, 16, 19, 20, 21, 31, 32, 63, 64, 127, 128, 254, 255, 256, 300}

// sizedText: one of the texts of the property (0: any) with all its names, all its numbers or all its strings as
// long as one of 22 lengths; the others are short.
func sizedText(prop int) (int, []rune) {
	var l []int
	for i, s := range sized {
		if prop == 0 || s.prop == prop {
			l = append(l, i)
		}
	}
	s := sized[l[sv.Concrete(sv.Int("text", 0, len(l)-1))]]
	size := wordSizes[sv.Concrete(sv.Int("size", 0, len(wordSizes)-1))]
	what := sv.Concrete(sv.Int("what", 0, 2))
	c := sv.RuneIn("c", letters)
	d := sv.RuneRange("d", '0', '9')
	q := sv.RuneIn("q", "aZ {*}/;\u3042\"")
	var t []rune
	for _, w := range words(s.text) {
		n := 1
		switch {
		case w[0] == '?':
			if what == 0 {
				n = size
			}
			t = append(t, 'q', rune('a'+w[1]-'1'))
			for i := 2; i < n; i++ {
				t = append(t, c)
			}
		case w == "#":
			if what == 1 {
				n = size
			}
			t = append(t, '3')
			for i := 1; i < n; i++ {
				t = append(t, d)
			}
		case w == "$":
			if what == 2 {
				n = size
			}
			t = append(t, '\'')
			for i := 0; i < n; i++ {
				t = append(t, q)
			}
			t = append(t, '\'')
		default:
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	return s.entry, t
}

// P02_Sizes: 2 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func P02_Sizes() {
	e, t := sizedText(2)
	check(e, t, faithful)
}

// P03_Sizes: 3 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func P03_Sizes() {
	e, t := sizedText(3)
	check(e, t, faithful)
}

// P04_Sizes: 5 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func P04_Sizes() {
	e, t := sizedText(4)
	check(e, t, faithful)
}

// P05_Sizes: 2 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func P05_Sizes() {
	e, t := sizedText(5)
	check(e, t, faithful)
}

// P06_Sizes: 2 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func P06_Sizes() {
	e, t := sizedText(6)
	check(e, t, faithful)
}

// W01_Sizes: 14 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func W01_Sizes() {
	e, t := sizedText(0)
	check(e, t, onWalk)
}

// T03_Sizes: 14 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func T03_Sizes() {
	e, t := sizedText(0)
	check(e, t, onPos)
}

// R01_Sizes: 14 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func R01_Sizes() {
	e, t := sizedText(0)
	check(e, t, onRefs|onAccept)
}

// P07_Sizes: 14 texts with names, numbers or strings of any of 22 lengths from 1 to 300 characters.
// cover: accept
func P07_Sizes() {
	e, t := sizedText(0)
	check(e, t, faithful|onReject)
}

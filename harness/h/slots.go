package h

import "tpharness/sv"

// Symbolic texts.

func words(s string) []string {
	var out []string
	w := ""
	for _, c := range s {
		if c == ' ' {
			if w != "" {
				out = append(out, w)
			}
			w = ""
			continue
		}
		w += string([]rune{c})
	}
	if w != "" {
		out = append(out, w)
	}
	return out
}

// slot: any one of the words, padded with blanks.
func slot(tag string, ws []string) []rune {
	n := 0
	for _, w := range ws {
		if k := len([]rune(w)); k > n {
			n = k
		}
	}
	c := sv.Int(tag, 0, len(ws)-1)
	t := make([]rune, n)
	for i := range t {
		t[i] = sv.WordRune(c, ws, i)
	}
	return t
}

// what separates words
var (
	onBlanks = []string{" "}
	onLines  = []string{"\n", " ", "\r\n\t", " {\n'\n} ", " (* a *)\n", "// b\n"}
)

// withSlot: the text with the word at position at replaced by (mode 0) any word
// of the vocabulary or nothing, or with any word inserted before it (mode 1).
func withSlot(s string, at, mode int, ws []string, seps []string) []rune {
	var t []rune
	l := words(s)
	k := 0
	sep := func() {
		t = append(t, []rune(seps[k%len(seps)])...)
		k++
	}
	for i, w := range l {
		if i == at {
			t = append(t, slot("word"+num(at), ws)...)
			sep()
			if mode == 0 {
				continue
			}
		}
		t = append(t, []rune(w)...)
		sep()
	}
	if at == len(l) {
		t = append(t, slot("word"+num(at), ws)...)
		sep()
	}
	return t
}

// mutated: any of the texts with any one word replaced by any word of the
// vocabulary, removed, or with any word inserted anywhere.
func mutated(texts []string) []rune { return mutatedOn(texts, onBlanks) }

func mutatedOn(texts []string, seps []string) []rune {
	k := sv.Concrete(sv.Int("text", 0, len(texts)-1))
	n := len(words(texts[k]))
	at := sv.Concrete(sv.Int("at", 0, n))
	mode := sv.Concrete(sv.Int("mode", 0, 1))
	sv.Assume(mode == 0 || at < n)
	if mode == 0 && at < n {
		return withSlot(texts[k], at, mode, append([]string{" "}, vocabulary...), seps)
	}
	return withSlot(texts[k], at, mode, vocabulary, seps)
}

// mutated2: any of the texts with any two neighbouring words replaced by any two
// words of the vocabulary or nothing.
func mutated2(texts []string, ws []string) []rune {
	k := sv.Concrete(sv.Int("text", 0, len(texts)-1))
	l := words(texts[k])
	at := sv.Concrete(sv.Int("at", 0, len(l)-1))
	var t []rune
	for i, w := range l {
		if i == at || i == at+1 {
			t = append(t, slot("word"+num(i), append([]string{" "}, ws...))...)
		} else {
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	return t
}

// oneChar: any of the texts with any one character replaced by any Unicode
// character, or cut off before any character and followed by any one.
func oneChar(texts []string) []rune {
	t := []rune(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	at := sv.Concrete(sv.Int("at", 0, len(t)-1))
	if sv.Concrete(sv.Int("cut", 0, 1)) == 1 {
		t = t[:at+1]
	}
	t[at] = sv.Rune("char")
	return t
}

// exchanged: any of the texts with any two of its words exchanged, or one moved
// elsewhere, or a run of up to 4 words taken out or written twice.
func exchanged(texts []string) []rune {
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	n := len(l)
	i := sv.Concrete(sv.Int("i", 0, n-1))
	var out []string
	switch sv.Concrete(sv.Int("how", 0, 3)) {
	case 0:
		j := sv.Concrete(sv.Int("j", 0, n-1))
		sv.Assume(i < j)
		out = append(out, l...)
		out[i], out[j] = out[j], out[i]
	case 1:
		j := sv.Concrete(sv.Int("j", 0, n-1))
		sv.Assume(i != j)
		for k, w := range l {
			if k == i {
				continue
			}
			if k == j {
				out = append(out, l[i])
			}
			out = append(out, w)
		}
	case 2:
		j := i + sv.Concrete(sv.Int("len", 2, 4))
		sv.Assume(j <= n)
		out = append(append(out, l[:i]...), l[j:]...)
	case 3:
		j := i + sv.Concrete(sv.Int("len", 1, 4))
		sv.Assume(j <= n)
		out = append(append(append(out, l[:j]...), l[i:j]...), l[j:]...)
	}
	var t []rune
	for _, w := range out {
		t = append(append(t, []rune(w)...), ' ')
	}
	return t
}

// withGap: any of the texts with more between two of its words (or before the
// first, or after the last).
func withGap(texts []string, filler func() []rune) []rune {
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	at := sv.Concrete(sv.Int("gap", 1, len(l)))
	var t []rune
	for i, w := range l {
		if i == at {
			t = append(append(t, filler()...), ' ')
		}
		t = append(append(t, []rune(w)...), ' ')
	}
	if at == len(l) {
		t = append(t, filler()...)
	}
	return t
}

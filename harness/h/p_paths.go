package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// ---- U02: units are loaded from the files that the uses clause names

const pathChars = "aAb_ -~\\/"

// anyPath: any n characters of file paths and ".pas"; the path as it is written and the
// one of the file. Relative, without empty names.
func anyPath(tag string, n int) (written, file []rune) {
	for i := 0; i < n; i++ {
		r := sv.RuneIn(tag+num(i), pathChars)
		sep := r == '\\' || r == '/'
		if sep {
			sv.Assume(i > 0 && i < n-1)
			sv.Assume(file[i-1] != '/')
			written = append(written, r)
			file = append(file, '/')
		} else {
			written = append(written, r)
			file = append(file, r)
		}
	}
	return append(written, []rune(".pas")...), append(file, []rune(".pas")...)
}

// unitFile: the text of a unit that is told by where its declaration is.
func unitFile(name string, pad int) []rune {
	t := []rune{}
	for i := 0; i < pad; i++ {
		t = append(t, ' ')
	}
	return append(t, []rune("unit "+name+" ; interface const k"+name+" = 1 ; implementation end .")...)
}

func declaredAt(u *ast.Unit) int {
	at := -1
	astcore.WalkDown(u, func(n ast.Node) error {
		if i, ok := n.(*ast.Ident); ok && len(i.Name) == 3 && i.Name[0] == 'k' {
			at = i.Location.Start.Index
		}
		return nil
	})
	return at
}

func lowered(s []rune) []rune {
	r := make([]rune, len(s))
	for i, c := range s {
		if sv.In(c, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
			c += 'a' - 'A'
		}
		r[i] = c
	}
	return r
}

func raised(s []rune) []rune {
	r := make([]rune, len(s))
	for i, c := range s {
		if sv.In(c, "abcdefghijklmnopqrstuvwxyz") {
			c -= 'a' - 'A'
		}
		r[i] = c
	}
	return r
}

// baseName: without directories
func baseName(s []rune) []rune {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

// trimmed: without blanks at both ends of the name
func trimmed(s []rune) []rune {
	n := len(s) - 4
	for n > 0 && s[n-1] == ' ' {
		n--
	}
	k := 0
	for k < n && s[k] == ' ' {
		k++
	}
	if k == n || s[k] == '/' {
		return s
	}
	return append(append([]rune{}, s[k:n]...), s[len(s)-4:]...)
}

// decoys are files with similar names.
func decoys(written, file []rune, name string) [][]rune {
	l := [][]rune{written, lowered(file), raised(file), baseName(file), trimmed(file), []rune(name + ".pas")}
	if file[0] != ' ' {
		l = append(l, append([]rune("b/"), file...))
	}
	return l
}

func sameText(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// U02_Path: a unit in a file with any path of 1..5 characters and ".pas"; there are
// files with similar names (as written, in lower or upper case, without directories,
// without blanks, named like the unit, in a directory), with or without the right one.
// cover: accept reject
func U02_Path() { pathOf(sv.Concrete(sv.Int("n", 1, 5))) }

func pathOf(n int) {
	sv.Budget(parseBudget)
	written, file := anyPath("c", n)
	there := sv.Concrete(sv.Int("there", 0, 1)) == 1
	for i, d := range decoys(written, file, "uu") {
		if !sameText(d, file) {
			sv.File(string(d), unitFile("uu", 20*i+20))
		}
	}
	if there {
		sv.File(string(file), unitFile("uu", 0))
	}
	t := append([]rune("program pp ; uses uu in '"), written...)
	t = append(t, []rune("' ; begin end .")...)
	sv.File("pp.dpr", t)
	p, err := parser.ParseProgram("pp.dpr")
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		sv.Assert(!there, "a unit is not found in its file")
		return
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
	sv.Assert(there, "a unit without file is loaded")
	sv.Assert(len(p.Units) == 1 && p.Units[0] != nil, "the unit is not in the result")
	u := p.Units[0]
	sv.Observe("at", num(declaredAt(u)))
	sv.Assert(declaredAt(u) == 26, "a unit is loaded from another file")
	sv.Assert(sameText([]rune(u.Path), file), "a unit has another path than its file")
	c := p.ProgramBlock.UsesClause
	sv.Assert(len(c) == 1 && c[0].Unit == u, "the unit is not linked with the uses clause")
	sv.Assert(c[0].Path != nil && sameText([]rune(*c[0].Path), append(append([]rune{'\''}, written...), '\'')), "the path in the uses clause is not as written")
	sv.Assert(sameText([]rune(c[0].EffectivePath()), file), "the effective path is not that of the file")
}

// U02_Two: two units in files with any two different paths of 3 characters and ".pas",
// and a unit without a path (for which there is a file of its name), listed in any order.
// cover: accept
func U02_Two() {
	sv.Budget(parseBudget)
	w1, f1 := anyPath("c", 3)
	w2, f2 := anyPath("d", 3)
	sv.Assume(!sameText(f1, f2))
	third := []rune("uc.pas")
	sv.File(string(third), unitFile("uc", 40))
	sv.File(string(f1), unitFile("ua", 0))
	sv.File(string(f2), unitFile("ub", 80))
	o := orders3[sv.Concrete(sv.Int("order", 0, 5))]
	t := []rune("program pp ; uses ")
	for i, k := range o {
		if i > 0 {
			t = append(t, ',', ' ')
		}
		t = append(t, []rune([]string{"ua", "ub", "uc"}[k])...)
		if k < 2 {
			t = append(t, []rune(" in '")...)
			t = append(t, [][]rune{w1, w2}[k]...)
			t = append(t, '\'')
		}
	}
	t = append(t, []rune(" ; begin end .")...)
	sv.File("pp.dpr", t)
	p, err := parser.ParseProgram("pp.dpr")
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Fail("correct files are rejected: " + sv.Force(err.Error()))
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
	sv.Assert(len(p.Units) == 2, "a unit is missing, or one without a file is loaded")
	for _, u := range p.Units {
		if u.Ident.Name == "ua" {
			sv.Assert(declaredAt(u) == 26 && sameText([]rune(u.Path), f1), "a unit is loaded from another file")
		} else {
			sv.Assert(u.Ident.Name == "ub" && declaredAt(u) == 106 && sameText([]rune(u.Path), f2), "a unit is loaded from another file")
		}
	}
	for i, k := range o {
		c := p.ProgramBlock.UsesClause[i]
		sv.Assert((c.Unit != nil) == (k < 2), "a unit is linked with the wrong item of the uses clause")
		if k < 2 {
			sv.Assert(c.Unit.Ident.Name == []string{"ua", "ub"}[k], "a unit is linked with the wrong item of the uses clause")
		}
	}
}

// U02_Program: a program at any path of 1..5 characters and ".pas" with a unit in a file, with
// files of similar names; the unit's path does not depend on the program's.
// cover: accept reject
func U02_Program() {
	sv.Budget(parseBudget)
	_, file := anyPath("c", sv.Concrete(sv.Int("n", 1, 5)))
	there := sv.Concrete(sv.Int("there", 0, 1)) == 1
	for _, d := range [][]rune{lowered(file), raised(file), baseName(file), trimmed(file)} {
		if !sameText(d, file) {
			sv.File(string(d), []rune("program qq ; begin end ."))
		}
	}
	sv.File("d/uu.pas", unitFile("uu", 0))
	if there {
		sv.File(string(file), []rune("program pp ; uses uu in 'd\\uu.pas' ; begin end ."))
	}
	p, err := parser.ParseProgram(string(file))
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		sv.Assert(!there, "a program is not found in its file")
		return
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
	sv.Assert(there, "a program without file is loaded")
	sv.Assert(p.Program.Ident.Name == "pp" && len(p.Units) == 1, "a program is loaded from another file")
	sv.Assert(sameText([]rune(p.Program.Path), file), "a program has another path than its file")
}

// U02X_Path: the same with 6 characters.
// cover: accept reject
func U02X_Path() { pathOf(6) }

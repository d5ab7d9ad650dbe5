package h

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/log"

	"tpharness/sv"
)

// ---- G01: diagnostics

type message struct {
	format string
	args   []interface{}
}

// recorder keeps what it is given
type recorder struct{ got []message }

func (r *recorder) Printf(format string, v ...interface{}) {
	r.got = append(r.got, message{format, v})
}

// silent drops what it is given
type silent struct{}

func (silent) Printf(format string, v ...interface{}) {}

func (m message) text() string { return strings.TrimSpace(sv.Force(fmt.Sprintf(m.format, m.args...))) }

// G01_Stack: any six operations: install one of three loggers, take the last one
// away again, write a message, begin or end a trace.
// cover: set back print trace
func G01_Stack() {
	base := &recorder{}
	last := log.SetLogger(base)
	all := []*recorder{{}, {}, {}}
	inForce := []*recorder{base}
	var back []func()
	type trace struct {
		name string
		end  func()
	}
	var traces []trace
	n := 0
	for i := 0; i < 6; i++ {
		cur := inForce[len(inForce)-1]
		total := len(base.got) + len(all[0].got) + len(all[1].got) + len(all[2].got)
		want := ""
		switch op := sv.Concrete(sv.Int("op", 0, 6)); op {
		case 0, 1, 2:
			back = append(back, log.SetLogger(all[op]))
			inForce = append(inForce, all[op])
			sv.Cover("set")
		case 3:
			if len(back) == 0 {
				return
			}
			back[len(back)-1]()
			back = back[:len(back)-1]
			inForce = inForce[:len(inForce)-1]
			sv.Cover("back")
		case 4:
			n++
			log.Printf("m%d %s", n, "x")
			want = "m" + num(n) + " x"
			sv.Cover("print")
		case 5:
			n++
			t := "t" + num(n)
			traces = append(traces, trace{t, log.TraceMethod(t)})
			want = t + " START"
			sv.Cover("trace")
		case 6:
			if len(traces) == 0 {
				return
			}
			t := traces[len(traces)-1]
			traces = traces[:len(traces)-1]
			t.end()
			want = t.name + " END"
		}
		now := len(base.got) + len(all[0].got) + len(all[1].got) + len(all[2].got)
		if want == "" {
			sv.Assert(now == total, "installing a logger or taking it away writes a message")
			continue
		}
		sv.Assert(now == total+1, "a message is written more than once or not at all")
		sv.Assert(len(cur.got) > 0 && cur.got[len(cur.got)-1].text() == want, "a message does not reach the logger in force as it was written")
	}
	last()
}

// G01_Message: a message with any format of three characters and any text and
// number to be formatted reaches the logger as it was given.
// cover: done
func G01_Message() {
	r := &recorder{}
	back := log.SetLogger(r)
	f := string([]rune{sv.RuneRange("f0", ' ', '~'), sv.RuneRange("f1", ' ', '~'), sv.RuneRange("f2", ' ', '~')})
	s := string([]rune{sv.Rune("s0"), sv.Rune("s1")})
	k := sv.Int("k", -1000, 1000)
	switch sv.Concrete(sv.Int("args", 0, 2)) {
	case 0:
		log.Printf(f)
		sv.Assert(len(r.got) == 1 && r.got[0].format == f && len(r.got[0].args) == 0, "a message reaches the logger changed")
	case 1:
		log.Printf(f, s)
		sv.Assert(len(r.got) == 1 && r.got[0].format == f && len(r.got[0].args) == 1, "a message reaches the logger changed")
		g, ok := r.got[0].args[0].(string)
		sv.Assert(ok && g == s, "a message reaches the logger changed")
	case 2:
		log.Printf(f, k, s)
		sv.Assert(len(r.got) == 1 && r.got[0].format == f && len(r.got[0].args) == 2, "a message reaches the logger changed")
		h, ok1 := r.got[0].args[0].(int)
		g, ok2 := r.got[0].args[1].(string)
		sv.Assert(ok1 && ok2 && h == k && g == s, "a message reaches the logger changed")
	}
	back()
	log.Printf("after")
	sv.Assert(len(r.got) == 1, "a logger that was taken away still gets messages")
	sv.Cover("done")
}

// balanced checks that every begin is followed by its end, the inner ones first
func balanced(r *recorder) {
	var open []string
	for _, m := range r.got {
		begin, end := strings.Contains(m.format, "START"), strings.Contains(m.format, "END")
		if !begin && !end {
			continue
		}
		w := words(m.text())
		name := ""
		for _, x := range w {
			if x == "START" || x == "END" {
				begin = x == "START"
				break
			}
			name += x + " "
		}
		if begin {
			open = append(open, name)
			continue
		}
		sv.Assert(len(open) > 0 && open[len(open)-1] == name, "the trace of a method ends without having begun, or before the ones inside it")
		open = open[:len(open)-1]
	}
	sv.Assert(len(open) == 0, "the trace of a method does not end")
}

func logged(entry int, t []rune) {
	quiet := log.SetLogger(silent{})
	a := runReal(entry, t)
	r := &recorder{}
	loud := log.SetLogger(r)
	b := runReal(entry, t)
	before := len(r.got)
	log.Printf("x")
	sv.Assert(len(r.got) == before+1, "parsing replaces the logger")
	r.got = r.got[:before]
	loud()
	c := runReal(entry, t)
	sv.Assert(len(r.got) == before, "a logger that was taken away still gets messages")
	quiet()
	if a.err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
	} else {
		sv.Observe("result", num(len(a.items)))
		sv.Cover("accept")
	}
	if before > 0 {
		sv.Cover("messages")
	}
	sameOutcome(a, b)
	sameOutcome(a, c)
	balanced(r)
}

// G01_Parse: 106 texts of all entries, whole or cut off after any word, parsed with
// a silent and with a recording logger.
// cover: accept reject messages
func G01_Parse() {
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	s := e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))]
	w := words(s)
	w = w[:sv.Concrete(sv.Int("cut", 1, len(w)))]
	logged(e.entry, []rune(strings.Join(w, " ")))
}

// G01_Names: texts with classes, properties and exception handlers and any names in
// them, parsed with a silent and with a recording logger.
// cover: accept reject messages
func G01_Names() {
	l := []scoped{
		{eTypes, "type ? = class ; ? = class ( ? ) ? : ? ; property ? : ? read ? ; end ;"},
		{eTypes, "type ta = class ff : Byte ; property ? : Byte read ff ; end ; tb = class ( ta ) gg : Byte ; property ? read ? ; end ;"},
		{eStmt, "try ? except on ? : Byte do ? ; on ? do ? end"},
		{eTypes, "type ? = record ? : Byte ; case ? of 1 : ( ? : Byte ) end ;"},
	}
	e, t := anyNamed(l)
	logged(e, t)
}

package sv

import (
	"fmt"
	"io"
	"os"
	"time"
)

// Go models of library functions that use reflection or real output. Under
// the symbolic executor calls of the library function run these instead
// (engine: redirects); natively they are not used.

type wrapped struct {
	msg string
	err error
}

func (w *wrapped) Error() string { return w.msg }
func (w *wrapped) Unwrap() error { return w.err }

type plain struct{ msg string }

func (w *plain) Error() string { return w.msg }

func hasWrap(format string) bool {
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			if format[i+1] == 'w' {
				return true
			}
			i++
		}
	}
	return false
}

func modelErrorf(format string, a ...interface{}) error {
	if hasWrap(format) {
		k := 0
		for i := 0; i+1 < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' && k < len(a) {
				if e, ok := a[k].(error); ok {
					return &wrapped{fmt.Sprintf(format, a...), e}
				}
			}
			k++
		}
	}
	return &plain{fmt.Sprintf(format, a...)}
}

func modelIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

// assignAs stores err in *target if its dynamic type allows it.
func assignAs(err error, target interface{}) bool { return false }

func modelAs(err error, target interface{}) bool {
	for err != nil {
		if assignAs(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

func put(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return 0, nil
	}
	return io.WriteString(w, Force(s))
}

func modelFprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return put(w, fmt.Sprintf(format, a...))
}

func modelFprint(w io.Writer, a ...interface{}) (int, error) { return put(w, fmt.Sprint(a...)) }

func modelFprintln(w io.Writer, a ...interface{}) (int, error) { return put(w, fmt.Sprintln(a...)) }

func modelMake(n int) []byte { return make([]byte, n) }

func modelIndex(s, t string) int {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}

func modelIndexBytes(s, t []byte) int { return modelIndex(string(s), string(t)) }

func modelMap(f func(rune) rune, s string) string {
	var l []rune
	for _, r := range s {
		if q := f(r); q >= 0 {
			l = append(l, q)
		}
	}
	return string(l)
}

func fileData(f *os.File) []byte   { return nil }
func fileAt(f *os.File) int        { return 0 }
func fileMove(f *os.File, pos int) {}

func modelRead(f *os.File, b []byte) (int, error) {
	d, at := fileData(f), fileAt(f)
	if len(b) == 0 {
		return 0, nil
	}
	if at >= len(d) {
		return 0, io.EOF
	}
	n := copy(b, d[at:])
	fileMove(f, at+n)
	return n, nil
}

// fileSize: -1 if there is no such file
func fileSize(name string) int { return 0 }

type fileInfo struct {
	name string
	size int
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return int64(i.size) }
func (i *fileInfo) Mode() os.FileMode  { return 0644 }
func (i *fileInfo) ModTime() time.Time { return time.Time{} }
func (i *fileInfo) IsDir() bool        { return false }
func (i *fileInfo) Sys() interface{}   { return nil }

func modelStat(name string) (os.FileInfo, error) {
	n := fileSize(name)
	if n < 0 {
		return nil, fmt.Errorf("stat %s: no such file or directory", name)
	}
	base := name
	for i := len(base) - 1; i >= 0; i-- {
		if base[i] == '/' {
			base = base[i+1:]
			break
		}
	}
	return &fileInfo{base, n}, nil
}

// C28: wasmrs invoke gives the operation the JSON it reads and prints the answer as JSON, or fails.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/mpref"
	"github.com/nanobus/iota/go/internal/zzverif/wguest"
	"github.com/nanobus/iota/go/operations"
)

type run struct {
	out, err string
	code     int
	ended    bool
}

func (r run) String() string {
	s := r.err
	if i := strings.Index(s, "\n\ngoroutine"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	o := r.out
	if len(o) > 300 {
		o = o[:300]
	}
	return fmt.Sprintf("exit code %d, output %q, %q", r.code, o, s)
}

// pretty says whether the last run was asked for a pretty answer.
var pretty bool

// file is a file that the program gets.
type file struct {
	name    string
	content []byte
}

// invoke runs the program; "@x" among the arguments is the file x.
func invoke(in string, files []file, args ...string) run {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c28-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for _, f := range files {
		if err := os.WriteFile(filepath.Join(dir, f.name), f.content, 0o644); err != nil {
			panic(err)
		}
	}
	all := []string{"invoke"}
	pretty = false
	for _, a := range args {
		pretty = pretty || a == "--pretty"
		if strings.HasPrefix(a, "@") {
			a = filepath.Join(dir, a[1:])
		}
		all = append(all, a)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 45*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("VERIF_TOOL"), all...)
	c.WaitDelay = time.Second
	var o, e bytes.Buffer
	c.Stdin, c.Stdout, c.Stderr = strings.NewReader(in), &o, &e
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "NO_COLOR=1")
	c.Run()
	return run{o.String(), e.String(), c.ProcessState.ExitCode(), ctx.Err() == nil}
}

// value reads exactly one JSON document.
func value(s string) (v any, err error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err = d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err = d.Token(); err != io.EOF {
		return nil, errors.New("more than one document")
	}
	return v, nil
}

// floats makes the numbers of a document float64.
func floats(v any) any {
	switch x := v.(type) {
	case json.Number:
		f, _ := x.Float64()
		return f
	case []any:
		r := []any{}
		for _, e := range x {
			r = append(r, floats(e))
		}
		return r
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			r[k] = floats(e)
		}
		return r
	}
	return v
}

// agrees says whether the JSON value stands for the MessagePack value.
func agrees(v mpref.Value, j any) bool {
	num := func(text string) bool {
		n, ok := j.(json.Number)
		if !ok {
			return false
		}
		a, ok1 := new(big.Rat).SetString(n.String())
		b, ok2 := new(big.Rat).SetString(text)
		return ok1 && ok2 && a.Cmp(b) == 0
	}
	switch v.K {
	case mpref.Nil:
		return j == nil
	case mpref.Bool:
		return j == v.B
	case mpref.Int:
		return num(strconv.FormatInt(v.I, 10))
	case mpref.Uint:
		return num(strconv.FormatUint(v.U, 10))
	case mpref.F32:
		n, ok := j.(json.Number)
		f, err := strconv.ParseFloat(n.String(), 32)
		return ok && err == nil && float32(f) == math.Float32frombits(uint32(v.U))
	case mpref.F64:
		n, ok := j.(json.Number)
		f, err := strconv.ParseFloat(n.String(), 64)
		return ok && err == nil && f == math.Float64frombits(v.U)
	case mpref.Str:
		return j == string(v.S) || !utf8.Valid(v.S)
	case mpref.Bin:
		s, ok := j.(string)
		b, err := base64.StdEncoding.DecodeString(s)
		return ok && err == nil && bytes.Equal(b, v.S) || j == nil && len(v.S) == 0
	case mpref.Ext:
		return true
	case mpref.Arr:
		a, ok := j.([]any)
		if !ok || len(a) != len(v.Elems) {
			return false
		}
		for i, e := range v.Elems {
			if !agrees(e, a[i]) {
				return false
			}
		}
		return true
	case mpref.Map:
		m, ok := j.(map[string]any)
		if !ok || len(m) != len(v.Elems)/2 {
			return false
		}
		for i := 0; i+1 < len(v.Elems); i += 2 {
			x, ok := m[string(v.Elems[i].S)]
			if !ok || !agrees(v.Elems[i+1], x) {
				return false
			}
		}
		return true
	}
	return false
}

// plain says whether JSON can stand for the value.
func plain(v mpref.Value) bool {
	switch v.K {
	case mpref.F32:
		f := float64(math.Float32frombits(uint32(v.U)))
		return !math.IsNaN(f) && !math.IsInf(f, 0)
	case mpref.F64:
		f := math.Float64frombits(v.U)
		return !math.IsNaN(f) && !math.IsInf(f, 0)
	case mpref.Ext:
		return false
	case mpref.Arr:
		for _, e := range v.Elems {
			if !plain(e) {
				return false
			}
		}
	case mpref.Map:
		for i, e := range v.Elems {
			if i%2 == 0 && e.K != mpref.Str || !plain(e) {
				return false
			}
		}
	}
	return true
}

// inf says whether there is a number that JSON does not have.
func inf(v mpref.Value) bool {
	if v.K == mpref.F32 || v.K == mpref.F64 {
		return !plain(v)
	}
	for _, e := range v.Elems {
		if inf(e) {
			return true
		}
	}
	return false
}

func op(t, d int, ns, name string, i uint32) operations.Operation {
	return operations.Operation{Type: operations.RequestType(t), Direction: operations.Direction(d), Namespace: ns, Operation: name, Index: i}
}

// answered checks that the program printed one JSON document, and returns it.
func answered(e *hx.E, what string, r run) any {
	e.Step(1)
	e.Check(r.ended, "no-end", "%s: the program does not end: %s", what, r)
	e.Check(r.code == 0, "failed", "%s: %s", what, r)
	v, err := value(r.out)
	e.Check(err == nil, "not-json", "%s: %s: %v", what, r, err)
	lines := strings.Count(strings.TrimRight(r.out, "\n"), "\n") + 1
	some := false
	switch x := v.(type) {
	case []any:
		some = len(x) > 0
	case map[string]any:
		some = len(x) > 0
	}
	if pretty {
		e.Check(!some || lines > 1, "not-pretty", "%s: %s", what, r)
	} else {
		e.Check(lines == 1, "not-plain", "%s: %s", what, r)
	}
	e.Outcome("answered")
	return v
}

// failed checks that the program failed without an answer.
func failed(e *hx.E, what string, r run) {
	e.Step(1)
	e.Check(r.ended, "no-end", "%s: the program does not end: %s", what, r)
	e.Check(r.code != 0, "no-failure", "%s: %s", what, r)
	e.Check(strings.TrimSpace(r.out) == "", "answer-and-failure", "%s: %s", what, r)
	e.Check(strings.TrimSpace(r.err) != "", "silent-failure", "%s: fails without a word", what)
	e.Outcome("failed")
}

func short(s string) string {
	if len(s) > 100 {
		return fmt.Sprintf("%s... (%d bytes)", s[:100], len(s))
	}
	return s
}

func main() {
	hx.Main("C28", func(s *hx.Suite) {
		s.Assumptions = []string{"the program runs as it is built, as a process of its own, under the Go scheduler; guests are real WebAssembly modules", "the file system and the pipes do not fail"}
		var what string
		now := func() string { return what }

		echo := wguest.Module(wguest.Spec{Ops: operations.Table{op(1, 1, "ns", "echo", 0)}, Do: wguest.Echo})

		back := func(e *hx.E, doc string, args ...string) {
			e.Case(now, func() {
				what = fmt.Sprintf("%q given to an operation that returns it, %q", short(doc), args)
				want, err := value(doc)
				if err != nil {
					panic(fmt.Sprint(doc, ": ", err))
				}
				got := answered(e, what, invoke(doc, []file{{"m", echo}}, append(args, "ns", "echo", "@m")...))
				e.Check(reflect.DeepEqual(floats(got), floats(want)), "changed", "%s: came back as %v", what, got)
				e.State(fmt.Sprint(got))
			})
		}

		s.Enum("documents", 8, func(e *hx.E) {
			scalars := []string{"null", "true", "false", "0", "-0", "1", "-1", "127", "128", "-32", "-33", "255", "256", "65536", "4294967296", "9007199254740993", "18446744073709551616",
				"1.5", "-2.25e-7", "1e300", "5e-324", `""`, `"a"`, `"\u0000\"\\\/\b\n\t"`, `"<&>\u2028"`, `"é\ud83d\ude00"`, `"null"`, `"1"`}
			few := []string{"null", "true", "0", "-7", "3e9", "0.1", `""`, `"text"`, "[]", "{}"}
			for _, d := range scalars {
				back(e, d)
				back(e, "["+d+"]")
				back(e, `{"k":`+d+`}`)
				if s.Thorough() {
					back(e, `{"k":[{"":`+d+`}]}`, "--pretty")
				}
			}
			var twos []string
			for _, a := range few {
				for _, b := range few {
					twos = append(twos, "["+a+","+b+"]", `{"":`+a+`,"b":`+b+`}`)
				}
			}
			for i, d := range twos {
				back(e, d)
				if s.Thorough() {
					for _, a := range few {
						back(e, "["+a+","+d+"]")
						back(e, `{"a":`+a+`,"c":`+d+`}`)
						back(e, "["+d+","+twos[(i*37+11)%len(twos)]+"]")
					}
				} else if i%5 == 0 {
					back(e, "["+d+","+few[i/5%10]+"]")
					back(e, `{"a":`+few[i/50%10]+`,"c":`+d+`}`)
				}
			}
			for _, n := range []int{15, 16, 31, 32, 33, 127, 128, 255, 256, 257, 1000, 5000, 16000} {
				back(e, `"`+strings.Repeat("x", n)+`"`)
				if n < 16000 {
					back(e, `{"`+strings.Repeat("k", n)+`":"`+strings.Repeat("é", n/4)+`"}`)
				}
				if n <= 1000 {
					back(e, "["+strings.Repeat("7,", n-1)+"8]")
					var m []string
					for i := 0; i < n && i < 800; i++ {
						m = append(m, fmt.Sprintf("%q:%d", fmt.Sprint("key", i), i))
					}
					back(e, "{"+strings.Join(m, ",")+"}")
					back(e, strings.Repeat("[", n)+strings.Repeat("]", n))
				}
			}
			for _, d := range []string{" 1", "1 ", "\n\t{ \"a\" :\r\n [ 1 , 2 ] } \n", "[\n]", "{ }", `{"a":{"a":{"a":{"a":[[[{"a":1}]]]}}}}`} {
				for _, o := range [][]string{nil, {"--pretty"}} {
					back(e, d, o...)
				}
			}
			for _, d := range []string{"1", `"a"`, `[1,{"a":[],"b":{}},"<>"]`, `{"b":[1,2],"a":{"c":null}}`, "[]", "{}"} {
				back(e, d, "--pretty")
			}
		})

		s.Enum("around the size of the buffer", 4, func(e *hx.E) {
			for n := 16384 - 40; n < 16384+10; n += hx.Pick(s, 2, 1) {
				n := n
				e.Case(now, func() {
					what = fmt.Sprintf("a text of %d characters", n)
					doc := `"` + strings.Repeat("z", n) + `"`
					r := invoke(doc, []file{{"m", echo}}, "ns", "echo", "@m")
					if r.code != 0 || !r.ended {
						e.Check(n > 16384-32, "failed", "%s: %s", what, r)
						failed(e, what, r)
						return
					}
					got := answered(e, what, r)
					e.Check(got == doc[1:n+1], "changed", "%s: came back different", what)
				})
			}
			for _, n := range []int{20000, 1 << 16, 1 << 20} {
				n := n
				e.Case(now, func() {
					what = fmt.Sprintf("a text of %d characters", n)
					failed(e, what, invoke(`"`+strings.Repeat("z", n)+`"`, []file{{"m", echo}}, "ns", "echo", "@m"))
				})
			}
		})

		s.Enum("not JSON", 8, func(e *hx.E) {
			bad := []string{"", " ", "\n", "nul", "True", "'a'", `"a`, `a`, "01", "1.", ".5", "+1", "NaN", "Infinity", "-", "0x1", "[1,]", "[,1]", "[1 2]", "{,}", `{"a"}`, `{"a":}`, `{"a":1,}`, `{a:1}`, `{1:2}`,
				"1 2", "{} {}", "[]]", "// x\n1", "\x00", "\xef\xbb\xbf1", `"\x"`, `"\u12"`, "\"\n\"", "[", "{", "]", "}", ",", ":", "null,", "1e", "1e400", "--", "\x81\xa1a\x01", "tru", "[\"a\":1]"}
			full := `{"a":[1,-2.5e3,true,null,"x\u00e9"],"b":{"c":false}}`
			for i := 1; i < len(full); i++ {
				bad = append(bad, full[:i])
			}
			for _, d := range bad {
				for _, o := range [][]string{nil, {"--pretty"}} {
					d, o := d, o
					e.Case(now, func() {
						what = fmt.Sprintf("input %q, %q", d, o)
						if _, err := value(d); err == nil && d != "1e400" {
							panic("it is JSON")
						}
						failed(e, what, invoke(d, []file{{"m", echo}}, append(o, "ns", "echo", "@m")...))
					})
				}
			}
		})

		s.Enum("answers", 8, func(e *hx.E) {
			var list [][]byte
			add := func(parts ...[]byte) { list = append(list, bytes.Join(parts, nil)) }
			for i, v := range mpref.Ints64() {
				if i%4 != 0 && !s.Thorough() {
					continue
				}
				b := make([]byte, 8)
				binary.BigEndian.PutUint64(b, uint64(v))
				add([]byte{0xd3}, b)
				add([]byte{0xcf}, b)
				if s.Thorough() || i%8 == 0 {
					add([]byte{0xd2}, b[4:])
					add([]byte{0xce}, b[4:])
					add([]byte{0xd1}, b[6:])
					add([]byte{0xcd}, b[6:])
					add([]byte{0xd0}, b[7:])
					add([]byte{0xcc}, b[7:])
				}
			}
			for i := 0; i < 256; i++ {
				if i < 0x80 && (i%16 == 0 || i%16 == 15) || i >= 0xe0 && (i < 0xe3 || i > 0xfd) || i == 0xc0 || i == 0xc2 || i == 0xc3 {
					add([]byte{byte(i)})
				}
			}
			for _, f := range []float64{0, 1, -1.5, 0.1, 1e21, 1e-7, 123456789.125, math.MaxFloat64, 5e-324, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1)} {
				b := make([]byte, 8)
				binary.BigEndian.PutUint64(b, math.Float64bits(f))
				add([]byte{0xcb}, b)
				binary.BigEndian.PutUint32(b, math.Float32bits(float32(f)))
				add([]byte{0xca}, b[:4])
			}
			lens := func(n int) [][]byte {
				return [][]byte{{byte(n)}, {byte(n >> 8), byte(n)}, {0, 0, byte(n >> 8), byte(n)}}
			}
			for _, n := range []int{0, 1, 2, 15, 16, 31, 32, 255, 256, 1000} {
				text := []byte(strings.Repeat(`a"\é`, n/5+1)[:n])
				if !utf8.Valid(text) {
					text[n-1] = 'y'
				}
				l := lens(n)
				if n < 32 {
					add([]byte{0xa0 | byte(n)}, text)
				}
				if n < 256 {
					add([]byte{0xd9}, l[0], text)
					add([]byte{0xc4}, l[0], mpref.Fill(n, 3))
				}
				add([]byte{0xda}, l[1], text)
				add([]byte{0xdb}, l[2], text)
				add([]byte{0xc5}, l[1], mpref.Fill(n, 4))
				add([]byte{0xc6}, l[2], mpref.Fill(n, 5))
				elems := bytes.Repeat([]byte{7}, n)
				var pairs []byte
				for i := 0; i < n; i++ {
					pairs = append(pairs, 0xa3, byte('a'+i/100), byte('0'+i/10%10), byte('0'+i%10), byte(i%128))
				}
				if n < 16 {
					add([]byte{0x90 | byte(n)}, elems)
					add([]byte{0x80 | byte(n)}, pairs)
				}
				add([]byte{0xdc}, l[1], elems)
				add([]byte{0xdd}, l[2], elems)
				if n < 300 {
					add([]byte{0xde}, l[1], pairs)
					add([]byte{0xdf}, l[2], pairs)
				}
			}
			small := [][]byte{{0xc0}, {0xc3}, {5}, {0xff}, {0xa1, 'x'}, {0xc4, 1, 9}, {0x90}, {0x80}, {0xcb, 0x3f, 0xf8, 0, 0, 0, 0, 0, 0}, {0xcf, 255, 255, 255, 255, 255, 255, 255, 255}}
			for _, a := range small {
				for _, b := range small {
					add([]byte{0x92}, a, b)
					add([]byte{0x82, 0xa1, 'k'}, a, []byte{0xa0}, b)
					if s.Thorough() {
						for _, c := range small {
							add([]byte{0x92, 0x91}, a, []byte{0x82, 0xa1, 'k'}, b, []byte{0xa2, 'k', 'l'}, c)
						}
					}
				}
			}
			add([]byte{0xd6, 0xff, 0, 0, 0, 1}) // a time
			add([]byte{0xd4, 5, 1})
			add([]byte{0x81, 1, 2})
			whole := len(list)
			for _, full := range [][]byte{{0x92, 1, 0x82, 0xa1, 'k', 0xcd, 1, 2, 0xa1, 'l', 0xc4, 2, 1, 2}, {0xcb, 0x3f, 0xf8, 0, 0, 0, 0, 0, 0}, {0xdb, 0, 0, 0, 3, 'a', 'b', 'c'}} {
				for i := 0; i < len(full); i++ {
					add(full[:i])
				}
			}
			add([]byte{0xc1})
			add([]byte{0xdd, 255, 255, 255, 255, 1})
			add([]byte{0xdf, 255, 255, 255, 255, 1})
			add([]byte{0xdb, 127, 255, 255, 255, 1})

			const per = 20
			for from := 0; from < len(list); from += per {
				to := from + per
				if to > len(list) {
					to = len(list)
				}
				answers := list[from:to]
				var ops operations.Table
				for i := range answers {
					ops = append(ops, op(1, 1, "ns", fmt.Sprint("op", i), uint32(i)))
				}
				m := wguest.Module(wguest.Spec{Ops: ops, Do: wguest.Answer, Answers: answers})
				for i, a := range answers {
					i, a, n := i, a, from+i
					e.Case(now, func() {
						what = fmt.Sprintf("answer %x", a[:len(a)%40])
						if len(a) < 40 {
							what = fmt.Sprintf("answer %x", a)
						}
						v, size, st := mpref.Parse(a)
						args := []string{"ns", fmt.Sprint("op", i), "@m"}
						if n%3 == 0 {
							args = append([]string{"--pretty"}, args...)
						}
						r := invoke("null", []file{{"m", m}}, args...)
						if st != mpref.OK || size != len(a) || inf(v) {
							if n < whole && !inf(v) {
								panic("the answer is not what it should be")
							}
							failed(e, what, r)
							return
						}
						if !plain(v) && r.code != 0 {
							failed(e, what, r)
							return
						}
						got := answered(e, what, r)
						e.Check(agrees(v, got) || !plain(v), "changed", "%s: printed %v", what, got)
						e.State(v.Canon())
					})
				}
			}
		})

		s.Enum("which operation", 8, func(e *hx.E) {
			ans := func(tag string) []byte { return append([]byte{0xa0 | byte(len(tag))}, tag...) }
			provider := func(tag string, ops ...operations.Operation) []byte {
				var a [][]byte
				for i := 0; i < 6; i++ {
					a = append(a, ans(fmt.Sprint(tag, i)))
				}
				return wguest.Module(wguest.Spec{Ops: ops, Do: wguest.Answer, Answers: a})
			}
			names := []string{"a/x", "a/y", "b/x", "a.b/x", "a/xy"}
			split := func(n string) (string, string) { ns, o, _ := strings.Cut(n, "/"); return ns, o }
			call := func(w string, want string, n string, files []file, order ...string) {
				e.Case(now, func() {
					what = fmt.Sprintf("%s; %s called with %v", w, n, order)
					ns, o := split(n)
					r := invoke(`{"q":1}`, files, append([]string{ns, o}, order...)...)
					if want == "" {
						failed(e, what, r)
						return
					}
					got := answered(e, what, r)
					e.Check(got == want, "other-operation", "%s: answer %v instead of %s", what, got, want)
				})
			}
			// all assignments of three indexes to two operations
			for _, n1 := range names {
				for _, n2 := range names {
					if n1 == n2 {
						continue
					}
					for i := 0; i < 9; i++ {
						if i/3 == i%3 {
							continue
						}
						ns1, o1 := split(n1)
						ns2, o2 := split(n2)
						m := provider("m", op(1, 1, ns1, o1, uint32(i/3)), op(1, 1, ns2, o2, uint32(i%3)))
						w := fmt.Sprintf("%s@%d %s@%d", n1, i/3, n2, i%3)
						f := []file{{"m", m}}
						call(w, fmt.Sprint("m", i/3), n1, f, "@m")
						call(w, fmt.Sprint("m", i%3), n2, f, "@m")
						if i == 1 {
							for _, n := range append(names, "a/", "a/z", "c/x", "a.b/y", "x/a") {
								if n != n1 && n != n2 && n != "a/" {
									call(w, "", n, f, "@m")
								}
							}
						}
					}
				}
			}
			// the same name for operations of other types and for imports
			for t := 1; t <= 4; t++ {
				for d := 1; d <= 2; d++ {
					for pos := 0; pos < 2; pos++ {
						other := op(t, d, "a", "x", 3)
						if t == 1 && d == 1 {
							continue
						}
						ops := []operations.Operation{other, op(1, 1, "a", "x", 2)}
						if pos == 1 {
							ops[0], ops[1] = ops[1], ops[0]
						}
						w := fmt.Sprintf("a/x@3 of type %d, direction %d, listed %d", t, d, pos)
						call(w+" and a/x@2", "m2", "a/x", []file{{"m", provider("m", ops...)}}, "@m")
						if pos == 0 {
							call(w+" alone", "", "a/x", []file{{"m", provider("m", other)}}, "@m")
						}
					}
				}
			}
			// several modules
			p := []file{{"p", provider("p", op(1, 1, "a", "x", 1))}, {"q", provider("q", op(1, 1, "a", "y", 1), op(1, 1, "b", "x", 0))}, {"r", provider("r", op(1, 1, "a", "x", 4))}}
			for _, order := range [][]string{{"@p", "@q"}, {"@q", "@p"}, {"@p", "@q", "@r"}, {"@r", "@q", "@p"}, {"@q", "@r", "@p"}, {"@p", "@p"}, {"@p", "@r", "@p"}, {"@r", "@p", "@r"}} {
				last := ""
				for _, o := range order {
					if o != "@q" {
						last = o
					}
				}
				call("several modules", map[string]string{"@p": "p1", "@r": "r4"}[last], "a/x", p, order...)
				if strings.Contains(strings.Join(order, ""), "@q") {
					call("several modules", "q1", "a/y", p, order...)
					call("several modules", "q0", "b/x", p, order...)
				}
				call("several modules", "", "b/y", p, order...)
			}
			for _, ready := range []string{wguest.OnStart, wguest.OnInit, wguest.OnRSInit} {
				m := wguest.Module(wguest.Spec{Ops: operations.Table{op(1, 1, "a", "x", 0)}, Ready: ready, Do: wguest.Answer, Answers: [][]byte{ans("m0")}})
				call("ready after "+ready, "m0", "a/x", []file{{"m", m}}, "@m")
			}
		})

		s.Enum("imports", 8, func(e *hx.E) {
			docs := []string{"1", `{"a":[1,"x"]}`, `"` + strings.Repeat("t", 300) + `"`}
			relay := func(ns, o, ins, in string, i uint32) []byte {
				return wguest.Module(wguest.Spec{Ops: operations.Table{op(1, 1, ns, o, i), op(1, 2, ins, in, 0)}, Do: wguest.Relay})
			}
			target := func(do string, i uint32) []byte {
				return wguest.Module(wguest.Spec{Ops: operations.Table{op(1, 1, "t", "end", i)}, Do: do})
			}
			perms := func(n int) (all [][]int) {
				var rec func(p []int)
				rec = func(p []int) {
					if len(p) == n {
						all = append(all, append([]int(nil), p...))
						return
					}
				next:
					for i := 0; i < n; i++ {
						for _, x := range p {
							if x == i {
								continue next
							}
						}
						rec(append(p, i))
					}
				}
				rec(nil)
				return
			}
			for links := 1; links <= hx.Pick(s, 2, 3); links++ {
				files := []file{}
				for i := 0; i < links; i++ {
					in, ns := fmt.Sprint("op", i+1), fmt.Sprint("r", i+1)
					if i == links-1 {
						ns, in = "t", "end"
					}
					files = append(files, file{fmt.Sprint("m", i), relay(fmt.Sprint("r", i), fmt.Sprint("op", i), ns, in, uint32(i*3))})
				}
				for _, do := range []string{wguest.Echo, wguest.Fail, wguest.Trap} {
					all := append(append([]file{}, files...), file{"end", target(do, 2)})
					for _, p := range perms(len(all)) {
						for _, doc := range docs {
							do, p, doc, links := do, p, doc, links
							e.Case(now, func() {
								args := []string{"r0", "op0"}
								for _, i := range p {
									args = append(args, "@"+all[i].name)
								}
								what = fmt.Sprintf("%d modules in between, then one that does %s; %v, input %s", links, do, args, short(doc))
								r := invoke(doc, all, args...)
								if do != wguest.Echo {
									failed(e, what, r)
									return
								}
								want, _ := value(doc)
								got := answered(e, what, r)
								e.Check(reflect.DeepEqual(got, want), "changed", "%s: %v", what, got)
							})
						}
					}
				}
			}
		})

		s.Enum("failing guests and files", 4, func(e *hx.E) {
			ok := file{"ok", echo}
			fail := func(w string, in string, files []file, args ...string) {
				e.Case(now, func() {
					what = w
					failed(e, w, invoke(in, append(files, ok), args...))
				})
			}
			t := operations.Table{op(1, 1, "ns", "echo", 0)}
			for _, do := range []string{wguest.Fail, wguest.Trap} {
				m := wguest.Module(wguest.Spec{Ops: t, Do: do})
				for _, in := range []string{"null", "1", `{"a":1}`} {
					fail("a guest that does "+do, in, []file{{"m", m}}, "ns", "echo", "@m")
					fail("pretty, a guest that does "+do, in, []file{{"m", m}}, "--pretty", "ns", "echo", "@m")
				}
			}
			e.Case(now, func() {
				what = "the error of the guest"
				r := invoke("1", []file{{"m", wguest.Module(wguest.Spec{Ops: t, Do: wguest.Fail})}}, "ns", "echo", "@m")
				failed(e, what, r)
				e.Check(strings.Contains(r.err, "the guest is not willing"), "error", "%s is not shown: %s", what, r)
			})
			for _, without := range []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"} {
				m := wguest.Module(wguest.Spec{Ops: t, Without: without})
				fail("a guest without "+without, "1", []file{{"m", m}}, "ns", "echo", "@m")
				fail("a guest without "+without+" after another", "1", []file{{"m", m}}, "ns", "echo", "@ok", "@m")
				fail("a guest without "+without+" before another", "1", []file{{"m", m}}, "ns", "echo", "@m", "@ok")
			}
			for i, c := range [][]byte{nil, []byte("x"), []byte("\x00asm"), []byte("\x00asm\x02\x00\x00\x00"), echo[:20], echo[:len(echo)-1], append(append([]byte(nil), echo...), 1), []byte("\x00asm\x01\x00\x00\x00")} {
				fail(fmt.Sprint("broken file ", i), "1", []file{{"m", c}}, "ns", "echo", "@m")
				fail(fmt.Sprint("broken file ", i, " after another"), "1", []file{{"m", c}}, "ns", "echo", "@ok", "@m")
				fail(fmt.Sprint("broken file ", i, " before another"), "1", []file{{"m", c}}, "ns", "echo", "@m", "@ok")
			}
			fail("no such file", "1", nil, "ns", "echo", "@none")
			fail("no such file after another", "1", nil, "ns", "echo", "@ok", "@none")
			fail("no such file before another", "1", nil, "ns", "echo", "@none", "@ok")
			fail("a directory", "1", nil, "ns", "echo", "@.")
			for _, a := range [][]string{{}, {"ns"}, {"ns", "echo"}, {"--unknown", "ns", "echo", "@ok"}} {
				fail(fmt.Sprintf("arguments %q", a), "1", nil, a...)
			}
		})

		s.Enum("verbose", 4, func(e *hx.E) {
			for _, doc := range []string{"1", `{"a":[true]}`, `"x y"`} {
				for _, o := range [][]string{{"--verbose"}, {"--verbose", "--pretty"}} {
					doc, o := doc, o
					e.Case(now, func() {
						what = fmt.Sprintf("%s, %q", doc, o)
						r := invoke(doc, []file{{"m", echo}}, append(o, "ns", "echo", "@m")...)
						e.Step(1)
						e.Check(r.ended && r.code == 0, "failed", "%s: %s", what, r)
						want, _ := value(doc)
						found := false
						for i := 0; i < len(r.out); i++ {
							if i == 0 || r.out[i-1] == '\n' {
								if got, err := value(r.out[i:]); err == nil && reflect.DeepEqual(got, want) {
									found = true
								}
							}
						}
						e.Check(found, "no-answer", "%s: the answer is not at the end of the output: %s", what, r)
					})
				}
			}
		})
	})
}

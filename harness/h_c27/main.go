// C27: wasmrs-ops adds the table of operations to a module, and nothing else.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/wguest"
	"github.com/nanobus/iota/go/operations"
)

const section = "wasmrs_ops"

// part is a section of a module.
type part struct {
	id      byte
	name    string // of a custom section
	content string
}

func (p part) String() string {
	if len(p.content) > 40 {
		p.content = fmt.Sprintf("%s... (%d bytes)", p.content[:40], len(p.content))
	}
	return fmt.Sprintf("%d %s %q", p.id, p.name, p.content)
}

// parts splits a module.
func parts(b []byte) (list []part, ok bool) {
	num := func() (n uint64, ok bool) {
		for i := 0; i < 5 && len(b) > 0; i++ {
			c := b[0]
			b = b[1:]
			n |= uint64(c&0x7f) << (7 * i)
			if c < 0x80 {
				return n, true
			}
		}
		return 0, false
	}
	if len(b) < 8 || string(b[:8]) != "\x00asm\x01\x00\x00\x00" {
		return nil, false
	}
	b = b[8:]
	for len(b) > 0 {
		p := part{id: b[0]}
		b = b[1:]
		n, ok := num()
		if !ok || n > uint64(len(b)) {
			return nil, false
		}
		all := b
		b = b[:n]
		if p.id == 0 {
			k, ok := num()
			if !ok || k > uint64(len(b)) {
				return nil, false
			}
			p.name = string(b[:k])
			b = b[k:]
		}
		p.content = string(b)
		b = all[n:]
		list = append(list, p)
	}
	return list, true
}

// rows reads a table of operations.
func rows(b []byte) (list []string, ok bool) {
	if len(b) < 10 || string(b[:6]) != "\x00wrs\x00\x01" {
		return nil, false
	}
	n := binary.BigEndian.Uint32(b[6:])
	b = b[10:]
	str := func() (s string, ok bool) {
		if len(b) < 2 || len(b) < 2+int(binary.BigEndian.Uint16(b)) {
			return "", false
		}
		k := 2 + int(binary.BigEndian.Uint16(b))
		s, b = string(b[2:k]), b[k:]
		return s, true
	}
	for ; n > 0; n-- {
		if len(b) < 6 {
			return nil, false
		}
		o := operations.Operation{Type: operations.RequestType(b[0]), Direction: operations.Direction(b[1]), Index: binary.BigEndian.Uint32(b[2:])}
		b = b[6:]
		var ok bool
		if o.Namespace, ok = str(); !ok {
			return nil, false
		}
		if o.Operation, ok = str(); !ok {
			return nil, false
		}
		if _, ok = str(); !ok {
			return nil, false
		}
		list = append(list, row(o))
	}
	sort.Strings(list)
	return list, true
}

var (
	kinds = map[operations.RequestType]string{1: "RequestResponse", 2: "FireAndForget", 3: "RequestStream", 4: "RequestChannel"}
	dirs  = map[operations.Direction]string{1: "export", 2: "import"}
)

// row is what is shown of an operation.
func row(o operations.Operation) string {
	return strings.Join(strings.Fields(fmt.Sprint(o.Namespace, " ", o.Operation, " ", dirs[o.Direction], " ", kinds[o.Type], " ", o.Index)), " ")
}

func rowsOf(t operations.Table) (list []string) {
	for _, o := range t {
		list = append(list, row(o))
	}
	sort.Strings(list)
	return
}

type run struct {
	out, err string
	code     int
	ended    bool
}

func (r run) String() string {
	s := r.err
	if i := strings.Index(s, "\n\ngoroutine"); i >= 0 {
		s = s[:i]
	}
	return fmt.Sprintf("exit code %d, output %q, %q", r.code, r.out, s)
}

// tool runs wasmrs-ops.
func tool(args ...string) run { return toolAs(nil, args...) }

// toolAs runs it as another user, if there is one.
func toolAs(user *syscall.Credential, args ...string) run {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("VERIF_TOOL"), args...)
	c.WaitDelay = time.Second
	var out, err bytes.Buffer
	c.Stdout, c.Stderr = &out, &err
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "NO_COLOR=1")
	if user != nil {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: user}
	}
	if c.Run(); c.ProcessState == nil {
		return run{code: -1000}
	}
	return run{out.String(), err.String(), c.ProcessState.ExitCode(), ctx.Err() == nil}
}

// shown are the rows of the last table in the output.
func shown(out string) (list []string) {
	i := strings.LastIndex(out, "Namespace")
	if i < 0 {
		return nil
	}
	lines := strings.Split(out[i:], "\n")
	for _, l := range lines[1:] {
		if f := strings.Fields(l); len(f) > 0 {
			list = append(list, strings.Join(f, " "))
		}
	}
	sort.Strings(list)
	return
}

func head(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func same(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

var files int

// within runs f with a file of the given content.
func within(content []byte, f func(file string)) {
	files++
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c27-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, fmt.Sprintf("m%d.wasm", files))
	if err := os.WriteFile(file, content, 0o644); err != nil {
		panic(err)
	}
	f(file)
	all, _ := os.ReadDir(dir)
	if len(all) > 1 {
		panic(fmt.Sprint("other files were left behind: ", all))
	}
}

func read(file string) []byte {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	return b
}

// adds checks that the module, which has no table, gets the table with the rows, and keeps everything else.
func adds(e *hx.E, what string, m []byte, want []string) {
	e.Step(3)
	before, ok := parts(m)
	if !ok {
		panic("the module is not one")
	}
	within(m, func(file string) {
		r := tool(file)
		e.Check(r.ended, "no-end", "%s: the program does not end", what)
		e.Check(r.code == 0, "failed", "%s: %s", what, r)
		b := read(file)
		after, ok := parts(b)
		e.Check(ok, "broken", "%s: the file is not a module any more: %s, %d bytes, %x", what, r, len(b), head(b))
		var known, knownAfter, custom, customAfter []part
		for _, p := range before {
			if p.id == 0 {
				custom = append(custom, p)
			} else {
				known = append(known, p)
			}
		}
		tables := 0
		for _, p := range after {
			switch {
			case p.id != 0:
				knownAfter = append(knownAfter, p)
			case p.name == section:
				tables++
				got, ok := rows([]byte(p.content))
				e.Check(ok, "table", "%s: the section is not a table of operations: %s", what, p)
				e.Check(same(got, want), "table", "%s: the section lists\n%q instead of\n%q", what, got, want)
			default:
				customAfter = append(customAfter, p)
			}
		}
		e.Check(tables == 1, "table", "%s: the module has %d sections %s now", what, tables, section)
		e.Check(reflect.DeepEqual(known, knownAfter), "changed", "%s: the sections\n%v became\n%v", what, known, knownAfter)
		e.Check(reflect.DeepEqual(custom, customAfter), "custom-sections", "%s: the custom sections\n%v became\n%v", what, custom, customAfter)
		e.Check(same(shown(r.out), want), "output", "%s: shows\n%q instead of\n%q:\n%s", what, shown(r.out), want, r.out)
		again := tool(file)
		e.Check(again.ended && again.code == 0, "again", "%s: the second run fails: %s", what, again)
		e.Check(bytes.Equal(read(file), b), "again", "%s: the second run changes the file", what)
		e.Check(same(shown(again.out), want), "again", "%s: the second run shows\n%q instead of\n%q", what, shown(again.out), want)
		e.State(strings.Join(want, ","))
		e.Outcome("added")
	})
}

// shows checks that a module with a table is not touched and that its own table is shown.
func shows(e *hx.E, what string, m []byte, want []string) {
	e.Step(1)
	within(m, func(file string) {
		r := tool(file)
		e.Check(r.ended, "no-end", "%s: the program does not end", what)
		e.Check(r.code == 0, "failed", "%s: %s", what, r)
		e.Check(bytes.Equal(read(file), m), "touched", "%s: the file was changed", what)
		e.Check(same(shown(r.out), want), "output", "%s: shows\n%q instead of\n%q:\n%s", what, shown(r.out), want, r.out)
		e.Outcome("shown")
	})
}

// refuses checks that the file is refused and stays as it is.
func refuses(e *hx.E, what string, m []byte) {
	e.Step(1)
	within(m, func(file string) {
		r := tool(file)
		e.Check(r.ended, "no-end", "%s: the program does not end", what)
		e.Check(r.code != 0, "accepted", "%s: %s", what, r)
		e.Check(bytes.Equal(read(file), m), "refused-and-changed", "%s: the file was changed: %s", what, r)
		e.Outcome("refused")
	})
}

// locked runs the program, as a user without privileges, on a file that cannot be written.
func locked(e *hx.E, what string, m []byte, want []string, has bool) {
	e.Step(1)
	within(m, func(file string) {
		dir := filepath.Dir(file)
		os.Chmod(file, 0o444)
		os.Chmod(dir, 0o555)
		defer os.Chmod(dir, 0o755)
		var user *syscall.Credential
		if os.Getuid() == 0 {
			user = &syscall.Credential{Uid: 65534, Gid: 65534}
		}
		r := toolAs(user, file)
		if r.code == -1000 {
			e.Outcome("there is no other user")
			return
		}
		e.Check(r.ended, "no-end", "%s: the program does not end", what)
		e.Check(bytes.Equal(read(file), m), "locked-and-changed", "%s: the file was changed: %s", what, r)
		if !has {
			e.Check(r.code != 0, "not-written", "%s: the table is not added, but %s", what, r)
			e.Outcome("cannot be written")
			return
		}
		e.Check(r.code == 0, "locked", "%s: %s", what, r)
		e.Check(same(shown(r.out), want), "locked", "%s: shows\n%q instead of\n%q:\n%s", what, shown(r.out), want, r.out)
		e.Outcome("need not be written")
	})
}

func op(t, d int, ns, name string, i uint32) operations.Operation {
	return operations.Operation{Type: operations.RequestType(t), Direction: operations.Direction(d), Namespace: ns, Operation: name, Index: i}
}

func main() {
	hx.Main("C27", func(s *hx.Suite) {
		s.Assumptions = []string{"the program runs as it is built, as a process of its own; guests are real WebAssembly modules", "the file system does not fail"}
		var what string
		now := func() string { return what }

		s.Enum("tables", 8, func(e *hx.E) {
			var all operations.Table
			for t := 1; t <= 4; t++ {
				for d := 1; d <= 2; d++ {
					for i, n := range []string{"a/b", "a.b/c", "/x", hx.Pick(s, "", "greeting.v1/say_hello")} {
						if n == "" {
							continue
						}
						ns, name, _ := strings.Cut(n, "/")
						all = append(all, op(t, d, ns, name, []uint32{0, 1, 300, 0xffffffff}[i]))
					}
				}
			}
			try := func(t ...operations.Operation) {
				t = append(operations.Table{}, t...)
				e.Case(now, func() {
					what = fmt.Sprintf("module with operations %q", rowsOf(t))
					adds(e, what, wguest.Module(wguest.Spec{Ops: t}), rowsOf(t))
				})
			}
			try()
			for _, a := range all {
				try(a)
				for _, b := range all {
					try(a, b)
				}
			}
			for _, a := range all[:hx.Pick(s, 5, 12)] {
				for _, b := range all[3:hx.Pick(s, 8, 15)] {
					for _, c := range all[6:hx.Pick(s, 11, 18)] {
						try(a, b, c)
					}
				}
			}
			for _, n := range []int{1, 2, 7, 8, 9, 10, 60, 100, 250, 400} { // sizes around those where lengths take one more byte
				var t operations.Table
				for i := 0; i < n; i++ {
					t = append(t, op(1+i%4, 1+i%2, "some.namespace", fmt.Sprint("op", i), uint32(n-i)))
				}
				try(t...)
			}
			for n := hx.Pick(s, 88, 80); n < hx.Pick(s, 108, 130); n++ {
				try(op(1, 1, "n", strings.Repeat("o", n), 5))
				try(op(1, 1, strings.Repeat("n", n), "o", 5))
			}
			for n := 16350 - 30; n < 16350+10; n += hx.Pick(s, 3, 1) {
				try(op(1, 1, "n", strings.Repeat("o", n), 5))
			}
		})

		two := operations.Table{op(1, 1, "greeting.v1", "sayHello", 0), op(3, 2, "other", "stream", 4)}
		big := strings.Repeat("0123456789abcdef", 1200)
		customs := map[string][]byte{
			"producers":   []byte("\x01\x08language\x01\x02Go\x00"),
			"wasmrs_op":   two.ToBytes(),
			"wasmrs_opss": two[:1].ToBytes(),
			"":            []byte("no name"),
			"empty":       nil,
			"big":         []byte(big),
			"wasmrs":      []byte("wasmrs_ops"),
			"size127":     []byte(big[:119]),
			"size128":     []byte(big[:120]),
		}
		var names []string
		for n := range customs {
			names = append(names, n)
		}
		sort.Strings(names)

		s.Enum("other sections", 8, func(e *hx.E) {
			where := [][3]int{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}}
			do := func(list []string, w [3]int, spec wguest.Spec) {
				if w[2] > 0 && list[len(list)-1] == "empty" {
					return // wazero cannot load a module that ends with an empty section
				}
				e.Case(now, func() {
					spec.Ops = two
					var c [][]byte
					for _, n := range list {
						c = append(c, wguest.Custom(n, customs[n]))
					}
					for i, to := range []*[][]byte{&spec.First, &spec.Middle, &spec.Last} {
						if w[i] > 0 {
							*to = c
						}
					}
					what = fmt.Sprintf("custom sections %q first, before the code, last: %v; more sections %v", list, w, spec.More)
					adds(e, what, wguest.Module(spec), rowsOf(two))
				})
			}
			for i := 0; i < 8; i++ {
				spec := wguest.Spec{}
				spec.More, spec.MaxMem, spec.Bulk = i&1 > 0, i&2 > 0, i&4 > 0
				do(nil, [3]int{}, spec)
				for _, a := range names {
					for _, w := range where {
						do([]string{a}, w, spec)
						if i == 0 || s.Thorough() {
							for _, b := range names {
								do([]string{a, b}, w, spec)
							}
						}
					}
				}
			}
		})

		s.Enum("names of functions", 4, func(e *hx.E) {
			sub := func(id byte, b string) string { return string(wguest.Section(id, []byte(b))) }
			for i, c := range []string{
				sub(0, "\x03mod"), sub(0, "\x00"), sub(1, "\x01\x00\x03abc"), sub(0, "\x03mod") + sub(1, "\x02\x00\x03abc\x02\x00"),
				sub(1, "\x01\x00\x03abc") + sub(2, "\x01\x05\x01\x00\x01x"), sub(7, "\x01\x00\x02g0"), sub(0, "\x03mod") + sub(9, "\x01\x00\x02d0"), "",
			} {
				for w := 0; w < 2; w++ {
					i, c, w := i, c, w
					e.Case(now, func() {
						what = fmt.Sprintf("name section %q (%d), followed by another %v", c, i, w == 1)
						spec := wguest.Spec{Ops: two}
						spec.Last = [][]byte{wguest.Custom("name", []byte(c))}
						if w == 1 {
							spec.Last = append(spec.Last, wguest.Custom("producers", customs["producers"]))
						}
						adds(e, what, wguest.Module(spec), rowsOf(two))
					})
				}
			}
		})

		s.Enum("the table when it is ready", 4, func(e *hx.E) {
			for _, ready := range []string{wguest.Always, wguest.OnStart, wguest.OnInit, wguest.OnRSInit} {
				for _, t := range []operations.Table{two, two[:1], two[1:], {two[1], two[0]}} {
					ready, t := ready, t
					e.Case(now, func() {
						what = fmt.Sprintf("table %q, ready after %s", rowsOf(t), ready)
						adds(e, what, wguest.Module(wguest.Spec{Ops: t, Ready: ready}), rowsOf(t))
					})
				}
			}
		})

		s.Enum("modules with a table", 8, func(e *hx.E) {
			tables := []operations.Table{{}, two, two[:1], {two[1], two[0]}, {op(4, 1, "x", "y", 9), op(2, 2, "", "z", 3), op(1, 1, "x", "w", 0xffffffff)}}
			for _, t := range tables {
				for _, announced := range []operations.Table{two, {}, {op(1, 1, "un", "related", 7)}} {
					for _, other := range append([]string{"-"}, names...) {
						for w := 0; w < 9; w++ {
							t, announced, other, w := t, announced, other, w
							e.Case(now, func() {
								what = fmt.Sprintf("a section with %q in place %d, announces %q, section %q in place %d", rowsOf(t), w/3, rowsOf(announced), other, w%3)
								spec := wguest.Spec{Ops: announced}
								place := []*[][]byte{&spec.First, &spec.Middle, &spec.Last}
								*place[w/3] = append(*place[w/3], wguest.Custom(section, t.ToBytes()))
								if other != "-" {
									*place[w%3] = append(*place[w%3], wguest.Custom(other, customs[other]))
								}
								shows(e, what, wguest.Module(spec), rowsOf(t))
							})
						}
					}
				}
			}
		})

		s.Enum("files that cannot be written", 4, func(e *hx.E) {
			for n := 0; n <= 2; n++ {
				for w := 0; w < 4; w++ {
					t := two[:n]
					sp := wguest.Spec{Ops: t}
					has := w < 3
					if has {
						*[]*[][]byte{&sp.First, &sp.Middle, &sp.Last}[w] = [][]byte{wguest.Custom(section, t.ToBytes())}
					}
					e.Case(now, func() {
						what = fmt.Sprintf("a file that cannot be written, %d operations, table at %d", n, w)
						locked(e, what, wguest.Module(sp), rowsOf(t), has)
					})
				}
			}
		})

		s.Enum("not a module", 8, func(e *hx.E) {
			bad := func(w string, b []byte) {
				e.Case(now, func() {
					what = w
					refuses(e, w, b)
				})
			}
			m := wguest.Module(wguest.Spec{Ops: two})
			bad("empty file", nil)
			for i := 0; i < 8; i++ {
				for _, x := range []byte{1, 0x80} {
					c := append([]byte(nil), m...)
					c[i] ^= x
					bad(fmt.Sprintf("byte %d of the header is %d", i, c[i]), c)
				}
			}
			list, _ := parts(m)
			end := 8
			ends := map[int]byte{8: 0}
			for _, p := range list {
				end += 1 + len(wguest.Leb(uint32(len(p.content)))) + len(p.content)
				ends[end] = p.id
			}
			for n := 0; n < len(m); n += hx.Pick(s, 2, 1) {
				if _, ok := ends[n]; !ok {
					bad(fmt.Sprintf("cut after %d of %d bytes", n, len(m)), m[:n])
				}
			}
			for n, id := range ends {
				if id == 3 || id == 5 || id == 7 { // functions without code
					bad(fmt.Sprintf("cut after section %d", id), m[:n])
				}
			}
			table := two.ToBytes()
			for w := 0; w < 3; w++ {
				spec := func(t []byte) []byte {
					s := wguest.Spec{Ops: two}
					*[]*[][]byte{&s.First, &s.Middle, &s.Last}[w] = [][]byte{wguest.Custom(section, t)}
					return wguest.Module(s)
				}
				for n := 0; n < len(table); n++ {
					bad(fmt.Sprintf("the table is cut after %d bytes, place %d", n, w), spec(table[:n]))
				}
				for i := 0; i < 6; i++ {
					c := append([]byte(nil), table...)
					c[i] ^= 1
					bad(fmt.Sprintf("byte %d of the table is changed, place %d", i, w), spec(c))
				}
				for _, n := range []uint32{3, 4, 255, 1 << 16, 1 << 31, 0xffffffff} {
					c := append([]byte(nil), table...)
					binary.BigEndian.PutUint32(c[6:], n)
					bad(fmt.Sprintf("the table claims %d operations, place %d", n, w), spec(c))
				}
			}
			e.Case(now, func() {
				what = "no such file"
				e.Step(1)
				within(m, func(file string) {
					r := tool(file + "x")
					e.Check(r.ended && r.code != 0, "accepted", "%s: %s", what, r)
					_, err := os.Stat(file + "x")
					e.Check(os.IsNotExist(err), "created", "%s: it exists now", what)
					e.Check(bytes.Equal(read(file), m), "touched", "another file was changed")
				})
			})
		})
	})
}

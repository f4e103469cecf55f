// Package wguest builds WasmRS guests that really run as WebAssembly, for the programs that bring their own context.
package wguest

import (
	"encoding/binary"

	"github.com/nanobus/iota/go/operations"
)

// What a guest does with a request.
const (
	Echo   = "echo"   // answers with the data of the request
	Answer = "answer" // answers as Spec.Answers says for the operation
	Fail   = "fail"   // answers with an error
	Relay  = "relay"  // passes the request on to its first import and the answer back
	Silent = "silent" // does not answer
	Trap   = "trap"   // traps
)

// When the guest has its list of operations ready.
const (
	Always   = ""
	OnStart  = "_start"
	OnInit   = "wasmrs_init"
	OnRSInit = "__wasmrs_init"
)

// Spec says what the guest is like.
type Spec struct {
	Ops     operations.Table
	Table   []byte // instead of Ops
	Do      string
	Answers [][]byte // MessagePack answer per operation
	Ready   string
	Without string // an export that is missing
	Sections
}

// Sections are further sections of the module.
type Sections struct {
	First, Middle, Last [][]byte // custom sections before all others, before the code and after all others
	More                bool     // has a table, globals and elements, too
	MaxMem              bool
	Bulk                bool // has a passive segment and a function that uses it, and so a count of segments
}

const (
	toGuest = 32 * 1024
	toHost  = 64 * 1024
	opPtr   = 1024
	ansPtr  = 128 * 1024
	stride  = 2048
	saved   = 16
	ready   = 20
)

// Leb is n as unsigned LEB128.
func Leb(n uint32) (b []byte) {
	for {
		c := byte(n & 0x7f)
		if n >>= 7; n == 0 {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

func sleb(n int32) (b []byte) {
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n == 0 && c&0x40 == 0 || n == -1 && c&0x40 != 0 {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

func cat(parts ...[]byte) (b []byte) {
	for _, p := range parts {
		b = append(b, p...)
	}
	return
}

func vec(items ...[]byte) []byte { return append(Leb(uint32(len(items))), cat(items...)...) }

// Str is s with its length.
func Str(s string) []byte { return append(Leb(uint32(len(s))), s...) }

// Section is a section of the module.
func Section(id byte, body []byte) []byte { return cat([]byte{id}, Leb(uint32(len(body))), body) }

// Custom is a custom section.
func Custom(name string, content []byte) []byte { return Section(0, cat(Str(name), content)) }

func code(locals byte, body ...[]byte) []byte {
	l := []byte{0}
	if locals > 0 {
		l = []byte{1, locals, 0x7f}
	}
	b := cat(l, cat(body...), []byte{0x0b})
	return cat(Leb(uint32(len(b))), b)
}

func con(n uint32) []byte                { return cat([]byte{0x41}, sleb(int32(n))) }
func get(l byte) []byte                  { return []byte{0x20, l} }
func set(l byte) []byte                  { return []byte{0x21, l} }
func call(f byte) []byte                 { return []byte{0x10, f} }
func load(at uint32) []byte              { return cat(con(at), []byte{0x28, 0, 0}) }
func load8(at uint32) []byte             { return cat(con(at), []byte{0x2d, 0, 0}) }
func store(at uint32, v []byte) []byte   { return cat(con(at), v, []byte{0x36, 0, 0}) }
func store8(at uint32, v []byte) []byte  { return cat(con(at), v, []byte{0x3a, 0, 0}) }
func store16(at uint32, v []byte) []byte { return cat(con(at), v, []byte{0x3b, 0, 0}) }
func add(a, b []byte) []byte             { return cat(a, b, []byte{0x6a}) }
func sub(a, b []byte) []byte             { return cat(a, b, []byte{0x6b}) }
func mul(a, b []byte) []byte             { return cat(a, b, []byte{0x6c}) }
func shr(a []byte, n uint32) []byte      { return cat(a, con(n), []byte{0x76}) }
func when(c []byte, then, otherwise []byte) []byte {
	return cat(c, []byte{0x04, 0x40}, then, []byte{0x05}, otherwise, []byte{0x0b})
}

// len24 stores a 24-bit length.
func len24(at uint32, v []byte) []byte {
	return cat(store8(at, shr(v, 16)), store8(at+1, shr(v, 8)), store8(at+2, v))
}

// copyTo copies n bytes, with the local i as its counter.
func copyTo(i byte, to uint32, from, n []byte) []byte {
	return cat(con(0), set(i),
		[]byte{0x02, 0x40, 0x03, 0x40},
		get(i), n, []byte{0x4f, 0x0d, 1}, // i >= n: done
		con(to), get(i), []byte{0x6a}, from, get(i), []byte{0x6a, 0x2d, 0, 0, 0x3a, 0, 0},
		get(i), con(1), []byte{0x6a}, set(i),
		[]byte{0x0c, 0, 0x0b, 0x0b})
}

// Module builds the module.
func Module(s Spec) []byte {
	table := s.Table
	if table == nil {
		table = append(operations.Table{}, s.Ops...).ToBytes()
	}
	fn := func(params int, result bool) []byte {
		b := []byte{0x60, byte(params)}
		for i := 0; i < params; i++ {
			b = append(b, 0x7f)
		}
		if result {
			return append(b, 1, 0x7f)
		}
		return append(b, 0)
	}
	imp := func(name string, typ byte) []byte { return cat(Str("wasmrs"), Str(name), []byte{0, typ}) }
	flag := func(name string) []byte {
		if s.Ready == name {
			return store(ready, con(1))
		}
		return nil
	}

	// of __wasmrs_send: local 0 is the number of bytes, 1 a counter, 2 and 3 are for anything
	reply := func(flags uint32, n []byte, from []byte, before ...[]byte) []byte { // a frame for the request's stream
		return cat(len24(toHost, add(n, con(6))), store(toHost+3, load(toGuest+3)), store16(toHost+7, con(flags)),
			copyTo(1, toHost+9, from, n), add(n, con(9)), call(2))
	}
	var do []byte
	isRequest := cat(load8(toGuest+7), con(2), []byte{0x76}, con(4), []byte{0x46})
	switch s.Do {
	case Answer:
		do = when(isRequest, cat(
			add(con(ansPtr), mul(load8(toGuest+15), con(stride))), set(2),
			get(2), []byte{0x28, 0, 0}, set(3),
			reply(0x6028, get(3), add(get(2), con(4)))), nil)
	case Fail:
		const text = "the guest is not willing"
		do = when(isRequest, reply(0x002c, con(4+uint32(len(text))), con(opPtr-100)), nil)
	case Relay:
		pass := cat(copyTo(1, toHost, con(toGuest), get(0)))
		send := cat(get(0), call(2))
		do = when(isRequest,
			cat(store(saved, load(toGuest+3)), pass, store(toHost+3, con(0x01000000)), store(toHost+12, con(0)), send),
			cat(pass, store(toHost+3, load(saved)), send))
	case Silent:
	case Trap:
		do = []byte{0x00}
	default:
		do = when(isRequest, cat(sub(get(0), con(20)), set(2), reply(0x6028, get(2), con(toGuest+20))), nil)
	}

	var exports [][]byte
	for i, name := range []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send", "_start", "wasmrs_init"} {
		if name != s.Without {
			exports = append(exports, cat(Str(name), []byte{0, byte(3 + i)}))
		}
	}
	exports = append(exports, cat(Str("memory"), []byte{2, 0}))
	list := cat(con(opPtr), con(uint32(len(table))), call(1))
	if s.Ready != Always {
		list = when(load(ready), list, cat(con(opPtr-200), con(uint32(len(empty))), call(1)))
	}
	data := [][]byte{
		cat([]byte{0}, con(opPtr), []byte{0x0b}, Str(string(table))),
		cat([]byte{0}, con(opPtr-200), []byte{0x0b}, Str(string(empty))),
		cat([]byte{0}, con(opPtr-100), []byte{0x0b}, Str("\x00\x00\x02\x01the guest is not willing")),
	}
	for i, a := range s.Answers {
		n := make([]byte, 4)
		binary.LittleEndian.PutUint32(n, uint32(len(a)))
		data = append(data, cat([]byte{0}, con(ansPtr+uint32(i)*stride), []byte{0x0b}, Str(string(n)+string(a))))
	}
	var bulk []byte
	if s.Bulk {
		k := byte(len(data))
		data = append(data, cat([]byte{1}, Str("bulk")))
		bulk = cat(con(8), con(0), con(4), []byte{0xfc, 8, k, 0, 0xfc, 9, k})
	}
	mem := []byte{0, 4}
	if s.MaxMem {
		mem = []byte{1, 4, 9}
	}
	m := cat([]byte("\x00asm\x01\x00\x00\x00"), cat(s.First...),
		Section(1, vec(fn(2, false), fn(1, false), fn(3, true), fn(0, false))),
		Section(2, vec(imp("__init_buffers", 0), imp("__op_list", 0), imp("__send", 1))),
		Section(3, vec([]byte{2}, []byte{3}, []byte{1}, []byte{3}, []byte{3})))
	if s.More {
		m = append(m, Section(4, vec([]byte{0x70, 0, 2}))...)
	}
	m = append(m, Section(5, vec(mem))...)
	if s.More {
		m = append(m, Section(6, vec(cat([]byte{0x7f, 1}, con(77), []byte{0x0b}), cat([]byte{0x7e, 0, 0x42}, sleb(-5), []byte{0x0b})))...)
	}
	m = append(m, Section(7, vec(exports...))...)
	if s.More {
		m = append(m, Section(9, vec(cat([]byte{0}, con(0), []byte{0x0b}, vec([]byte{6}, []byte{7}))))...)
	}
	if s.Bulk {
		m = append(m, Section(12, Leb(uint32(len(data))))...)
	}
	return cat(m, cat(s.Middle...),
		Section(10, vec(
			code(0, bulk, flag(OnRSInit), con(toGuest), con(toHost), call(0), con(1)),
			code(0, list),
			code(3, do),
			code(0, flag(OnStart)),
			code(0, flag(OnInit)),
		)),
		Section(11, vec(data...)), cat(s.Last...))
}

var empty = operations.Table{}.ToBytes()

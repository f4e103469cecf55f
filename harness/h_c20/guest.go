// A guest in a real WebAssembly module: what it does in __wasmrs_send is done by a listener of that function.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/tetratelabs/wazero/api"
	"github.com/tetratelabs/wazero/experimental"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

const (
	bufSize = 16 * 1024
	flagPtr = 16
	opPtr   = 128
)

// layout says what the module is like.
type layout struct {
	send, recv uint32 // where the buffers are
	table      []byte
	without    string // an export that is missing
	trapIn     string // a function that traps
	pages      int
}

func leb(n uint32) (b []byte) {
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n == 0 {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

func sleb(n int32) (b []byte) {
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n == 0 && c&0x40 == 0 || n == -1 && c&0x40 != 0 {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

func vec(items ...[]byte) []byte {
	b := leb(uint32(len(items)))
	for _, i := range items {
		b = append(b, i...)
	}
	return b
}

func str(s string) []byte { return append(leb(uint32(len(s))), s...) }

func cat(parts ...[]byte) (b []byte) {
	for _, p := range parts {
		b = append(b, p...)
	}
	return
}

func section(id byte, body []byte) []byte { return cat([]byte{id}, leb(uint32(len(body))), body) }

func code(body ...[]byte) []byte {
	b := cat([]byte{0}, cat(body...), []byte{0x0b})
	return cat(leb(uint32(len(b))), b)
}

func i32c(n uint32) []byte { return cat([]byte{0x41}, sleb(int32(n))) }

// wasm builds the module.
func wasm(l layout) []byte {
	fn := func(params int, result bool) []byte {
		b := []byte{0x60, byte(params)}
		for i := 0; i < params; i++ {
			b = append(b, 0x7f)
		}
		if result {
			return append(b, 1, 0x7f)
		}
		return append(b, 0)
	}
	imp := func(name string, typ byte) []byte { return cat(str("wasmrs"), str(name), []byte{0, typ}) }
	trap := func(name string) []byte {
		if l.trapIn == name {
			return []byte{0x00}
		}
		return nil
	}
	var exports [][]byte
	for i, name := range []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send", "out"} {
		if name != l.without {
			exports = append(exports, cat(str(name), []byte{0, byte(3 + i)}))
		}
	}
	exports = append(exports, cat(str("memory"), []byte{2, 0}))
	return cat([]byte("\x00asm\x01\x00\x00\x00"),
		section(1, vec(fn(2, false), fn(1, false), fn(3, true), fn(0, false))),
		section(2, vec(imp("__init_buffers", 0), imp("__op_list", 0), imp("__send", 1))),
		section(3, vec([]byte{2}, []byte{3}, []byte{1}, []byte{1})),
		section(5, vec(cat([]byte{0}, leb(uint32(l.pages))))),
		section(7, vec(exports...)),
		section(10, vec(
			code(trap("__wasmrs_init"), i32c(l.send), i32c(l.recv), []byte{0x10, 0}, i32c(1)),
			code(trap("__wasmrs_op_list_request"), i32c(opPtr), i32c(uint32(len(l.table))), []byte{0x10, 1}),
			code(i32c(flagPtr), []byte{0x28, 2, 0}, []byte{0x04, 0x40, 0x00, 0x0b}),
			code([]byte{0x20, 0, 0x10, 2}),
		)),
		section(11, vec(cat([]byte{0}, i32c(opPtr), []byte{0x0b}, str(string(l.table))))),
	)
}

// guest is the running module.
type guest struct {
	*raw
	l       layout
	mod     api.Module
	inside  bool
	entries int
	initial []uint64
	group   bool // sends what it has to send in one go
	custom  func(g *guest, ctx context.Context, f []byte) bool
	limit   int
}

var (
	cur     *guest
	theHost *host.Host
	modules = map[string]*host.Module{}
	ctx0    = context.Background()
)

func compile(l layout) *host.Module {
	ctx := context.WithValue(ctx0, experimental.FunctionListenerFactoryKey{}, factory{})
	if theHost == nil {
		h, err := host.New(ctx)
		if err != nil {
			panic(err)
		}
		theHost = h
	}
	key := fmt.Sprint(l)
	m, ok := modules[key]
	if !ok {
		var err error
		m, err = theHost.Compile(ctx, wasm(l))
		if err != nil {
			panic(err)
		}
		modules[key] = m
	}
	return m
}

var table = operations.Table{
	{Index: 1, Type: operations.RequestResponse, Direction: operations.Export, Namespace: "t", Operation: "echo"},
	{Index: 1, Type: operations.RequestStream, Direction: operations.Import, Namespace: "t", Operation: "items"},
}

func standard() layout {
	return layout{send: 1024, recv: 32 * 1024, table: table.ToBytes(), pages: 2}
}

// boot starts a guest.
func boot(l layout) (*host.Instance, *guest, error) {
	m := compile(l)
	if cur != nil && cur.mod != nil {
		_ = cur.mod.Close(ctx0)
	}
	g := &guest{raw: newRaw("guest", 1), l: l}
	g.raw.trap = func() { g.mod.Memory().WriteUint32Le(flagPtr, 1) }
	cur = g
	inst, err := m.Instantiate(ctx0)
	return inst, g, err
}

// factory makes the listeners of a guest, or of the current one.
type factory struct{ g *guest }

func (f factory) NewListener(def api.FunctionDefinition) experimental.FunctionListener {
	for _, n := range def.ExportNames() {
		if n == "__wasmrs_init" || n == "__wasmrs_send" {
			return listener{n, f.g}
		}
	}
	return nil
}

type listener struct {
	name string
	g    *guest
}

func (l listener) Before(ctx context.Context, mod api.Module, _ api.FunctionDefinition, params []uint64) context.Context {
	g := l.g
	if g == nil {
		g = cur
	}
	switch l.name {
	case "__wasmrs_init":
		g.mod = mod
		g.initial = append([]uint64{}, params...)
		g.guard()
	case "__wasmrs_send":
		g.enter(ctx, mod, uint32(params[0]))
	}
	return ctx
}

func (l listener) After(context.Context, api.Module, api.FunctionDefinition, error, []uint64) {}

const guard = 64

// guard fills the memory around the buffer of the frames from the host.
func (g *guest) guard() {
	for _, at := range []uint32{g.l.send - guard, g.l.send + bufSize} {
		if b, ok := g.mod.Memory().Read(at, guard); ok {
			for i := range b {
				b[i] = 0xA5
			}
		}
	}
}

func (g *guest) checkGuard() {
	for _, at := range []uint32{g.l.send - guard, g.l.send + bufSize} {
		if b, ok := g.mod.Memory().Read(at, guard); ok {
			for i := range b {
				if b[i] != 0xA5 {
					vrt.Fail("out-of-buffer", "the host has written outside the guest's buffer, at its address %d, buffer at %d", at+uint32(i), g.l.send)
				}
			}
		}
	}
}

// enter is a call of __wasmrs_send.
func (g *guest) enter(ctx context.Context, mod api.Module, size uint32) {
	if g.inside {
		vrt.Fail("guest-reentered", "the guest is entered by two threads at the same time")
	}
	g.inside = true
	defer func() { g.inside = false }()
	g.entries++
	mod.Memory().WriteUint32Le(flagPtr, 0)
	g.checkGuard()
	if size > bufSize {
		vrt.Fail("out-of-buffer", "the host has sent %d bytes", size)
	}
	b, ok := mod.Memory().Read(g.l.send, size)
	if !ok || size < 3+6 {
		vrt.Fail("not-whole", "the host has sent %d bytes", size)
	}
	b = append([]byte{}, b...)
	n := uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
	if n != size-3 {
		vrt.Fail("not-whole", "the host has sent %d bytes with a frame of %d bytes", size, n)
	}
	vrt.P("guest")
	if g.custom != nil && g.custom(g, ctx, b[3:]) {
		return
	}
	g.on(parse(b[3:]))
	g.flush(ctx)
}

func parse(b []byte) frames.Frame {
	id := binary.BigEndian.Uint32(b)
	tf := binary.BigEndian.Uint16(b[4:])
	f, ok := frref.Decode(int(tf>>10), int(tf&0x3ff), id, b[6:])
	if !ok {
		vrt.Fail("not-whole", "the host has sent a frame that is cut short: %x", b)
	}
	return f
}

// flush sends what it has to send.
func (g *guest) flush(ctx context.Context) {
	var buf []byte
	for _, f := range g.out {
		e := frref.Encode(f)
		e = cat([]byte{byte(len(e) >> 16), byte(len(e) >> 8), byte(len(e))}, e)
		if len(buf) > 0 && (!g.group || len(buf)+len(e) > bufSize) {
			g.write(ctx, buf)
			buf = nil
		}
		buf = append(buf, e...)
	}
	g.out = nil
	if len(buf) > 0 {
		g.write(ctx, buf)
	}
}

func (g *guest) write(ctx context.Context, b []byte) {
	g.mod.Memory().Write(g.l.recv, b)
	_ = g.callHost(ctx, uint32(len(b)))
	// the host must have taken what it needs
	if m, ok := g.mod.Memory().Read(g.l.recv, uint32(len(b))); ok {
		for i := range m {
			m[i] = 0xEE
		}
	}
}

// call calls the host.
func (g *guest) callHost(ctx context.Context, pos uint32) error {
	_, err := g.mod.ExportedFunction("out").Call(ctx, uint64(pos))
	if err != nil {
		// the guest does not survive
		g.trap()
	}
	return err
}

// open is the number of streams that are open.
func open(x any) int {
	n := 0
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Struct {
			if s, ok := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Interface().(interface{ Size() int }); ok {
				n += s.Size()
			}
		}
	}
	return n
}

// C22: the mesh links every import to the current provider of that operation.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/tetratelabs/wazero/experimental"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
)

const (
	RR  = operations.RequestResponse
	FNF = operations.FireAndForget
	RS  = operations.RequestStream
	RC  = operations.RequestChannel
)

// op is an operation that a module exports or imports.
type op struct {
	ns, name string
	kind     operations.RequestType
}

func (o op) String() string { return fmt.Sprint(o.ns, "/", o.name, " ", o.kind) }

type entry struct {
	op
	imported bool
	index    uint32
}

func (e entry) String() string {
	d := "exports"
	if e.imported {
		d = "imports"
	}
	return fmt.Sprint(d, " ", e.op, "@", e.index)
}

// load is the loading of a module from a file, again if it has been loaded already.
type load struct {
	file string
	ops  []entry
}

func (l load) String() string { return fmt.Sprint(l.file, " ", l.ops) }

// node is a module that has been loaded.
type node struct {
	*guest
	name    string
	ops     []entry
	inst    *host.Instance
	calls   map[uint32]*ask
	nextID  uint32
	pending []*ask
	chans   map[uint32]string
	served  []string
	holds   bool // its answers are held back until it gets an item of its control channel
	held    []func()
}

// ask is a call.
type ask struct {
	what string
	op   entry
	data string
	got  string
	ends int
}

var kindOf = map[operations.RequestType]frames.FrameType{RR: frames.FrameTypeRequestResponse, FNF: frames.FrameTypeRequestFNF, RS: frames.FrameTypeRequestStream, RC: frames.FrameTypeRequestChannel}

type world struct {
	m     *mesh.Mesh
	nodes map[string]*node // current
	all   []*node
	order []string // files, those loaded last are last
	n     int
	kept  []*ask
}

const (
	kickOp = 77
	ctlOp  = 78
)

var (
	worlds int
	old    []*guest
)

func newWorld() *world {
	for _, g := range old { // the listener of a module keeps it from being finalized
		*g = guest{}
	}
	old = nil
	if worlds++; worlds%30 == 0 {
		runtime.GC() // the memory of the modules is limited
	}
	return &world{m: mesh.New(), nodes: map[string]*node{}}
}

func (w *world) load(l load) *node {
	var t operations.Table
	for _, e := range l.ops {
		d := operations.Export
		if e.imported {
			d = operations.Import
		}
		t = append(t, operations.Operation{Index: e.index, Type: e.kind, Direction: d, Namespace: e.ns, Operation: e.name})
	}
	lay := standard()
	lay.table = nil
	if len(t) > 0 {
		lay.table = t.ToBytes()
	} else {
		lay.table = operations.Table{}.ToBytes()
	}
	n := &node{name: fmt.Sprint(l.file, len(w.all)), ops: l.ops, calls: map[uint32]*ask{}, nextID: 1, chans: map[uint32]string{}}
	n.guest = &guest{raw: newRaw(n.name, 1), l: lay}
	n.guest.custom = n.serve
	old = append(old, n.guest)
	file := path(l.file)
	if err := os.WriteFile(file, wasm(lay), 0o600); err != nil {
		panic(err)
	}
	ctx := context.WithValue(ctx0, experimental.FunctionListenerFactoryKey{}, factory{n.guest})
	inst, err := w.m.LoadModule(ctx, file)
	if err != nil {
		vrt.Fail("load", "the module cannot be loaded: %v", err)
	}
	n.inst = inst
	w.nodes[l.file] = n
	w.all = append(w.all, n)
	for i, f := range w.order {
		if f == l.file {
			w.order = append(w.order[:i:i], w.order[i+1:]...)
			break
		}
	}
	w.order = append(w.order, l.file)
	return n
}

func path(file string) string {
	return filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprint(os.Getpid(), file, ".wasm"))
}

// unknown: operations that nobody exports are called, and modules that cannot be loaded are loaded
func unknown(o op, how, file string, list bool) {
	w := newWorld()
	ops := []op{{"n", "a", RR}, {"n", "b", RS}}
	w.load(load{"I", layoutOf(append([]op{{"n", "c", RR}}, ops...), true, 1)})
	w.load(load{"A", layoutOf(ops, false, 1)})
	if how == "" {
		a := &ask{op: entry{op: o}, data: "d"}
		w.call(a)
		vrt.Sleep(0)
		if a.op.kind != FNF && (a.ends != 1 || a.got != "nothing" && !strings.HasPrefix(a.got, "error ")) {
			vrt.Fail("answer", "a call of %s, which nobody exports, got %q with %d ends", o, a.got, a.ends)
		}
		for _, n := range w.all {
			if len(n.served) > 0 {
				vrt.Fail("mislinked", "a call of %s, which nobody exports, reached %s as %q", o, n.name, n.served)
			}
		}
	} else {
		l := standard()
		var t operations.Table
		for i, p := range append([]op{{"n", "c", RR}}, ops...) {
			t = append(t, operations.Operation{Index: uint32(i), Type: p.kind, Direction: operations.Export, Namespace: p.ns, Operation: p.name})
		}
		l.table = t.ToBytes()
		var bytes []byte
		switch how {
		case "empty":
		case "garbage":
			bytes = []byte("no module")
		case "truncated":
			bytes = wasm(l)
			bytes = bytes[:len(bytes)-3]
		case "trap":
			l.trapIn = "__wasmrs_init"
			bytes = wasm(l)
		default:
			l.without = how
			bytes = wasm(l)
		}
		g := &guest{raw: newRaw("broken", 1), l: l}
		g.custom = func(*guest, context.Context, []byte) bool {
			vrt.Fail("mislinked", "a module that could not be loaded gets a call")
			return true
		}
		old = append(old, g)
		f := path(file)
		if how == "missing" {
			os.Remove(f)
		} else if err := os.WriteFile(f, bytes, 0o600); err != nil {
			panic(err)
		}
		ctx := context.WithValue(ctx0, experimental.FunctionListenerFactoryKey{}, factory{g})
		var err error
		if list {
			err = w.m.LoadModules(ctx, f)
		} else {
			_, err = w.m.LoadModule(ctx, f)
		}
		if err == nil {
			vrt.Fail("no-error", "a module that is %s was loaded", how)
		}
	}
	w.calls("afterwards")
	vrt.Quiesce()
	w.calls("later")
	w.load(load{"B", layoutOf([]op{{"n", "c", RR}}, false, 1)})
	w.calls("with another module")
	w.m.Close()
	vrt.Quiesce()
	if b := vrt.Blocked(); len(b) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", b)
	}
}

// provider is the module that provides an operation.
func (w *world) provider(o op) (*node, uint32) {
	for i := len(w.order) - 1; i >= 0; i-- {
		n := w.nodes[w.order[i]]
		for _, e := range n.ops {
			if !e.imported && e.op == o {
				return n, e.index
			}
		}
	}
	return nil, 0
}

// serve handles a frame in the module.
func (n *node) serve(g *guest, ctx context.Context, b []byte) bool {
	f := parse(b)
	id := f.GetStreamID()
	if a, ok := n.calls[id]; ok {
		n.answered(a, f)
		g.flush(ctx)
		return true
	}
	switch f := f.(type) {
	case *frames.RequestPayload:
		if len(f.Metadata) < 8 {
			vrt.Fail("metadata", "%s got a request with the metadata %q", n.name, f.Metadata)
		}
		index := binary.BigEndian.Uint32(f.Metadata)
		if index == ctlOp {
			n.chans[id] = ctl
			g.send(&frames.RequestN{StreamID: id, N: 5})
			break
		}
		if f.FrameType == frames.FrameTypeRequestFNF && index == kickOp {
			for _, a := range n.pending {
				n.request(a)
			}
			n.pending = nil
			break
		}
		what := fmt.Sprint(n.name, " ", f.FrameType, "@", index, " ", string(f.Data), " ", string(f.Metadata[8:]))
		n.served = append(n.served, what)
		switch f.FrameType {
		case frames.FrameTypeRequestResponse:
			n.later(func() { g.answer(id, what, nil) })
		case frames.FrameTypeRequestStream:
			n.later(func() {
				g.send(&frames.Payload{StreamID: id, Data: []byte(what), Next: true})
				g.send(&frames.Payload{StreamID: id, Complete: true})
			})
		case frames.FrameTypeRequestChannel:
			n.chans[id] = what
			g.send(&frames.RequestN{StreamID: id, N: 5})
		}
	case *frames.Payload:
		what, ok := n.chans[id]
		if !ok {
			vrt.Fail("unexpected", "%s got %s", n.name, frref.Show(f))
		}
		if what == ctl {
			for _, do := range n.held {
				do()
			}
			n.held, n.holds = nil, false
			if f.Complete {
				g.send(&frames.Payload{StreamID: id, Complete: true})
			}
			break
		}
		if f.Next {
			n.chans[id] += " " + string(f.Data)
		}
		if f.Complete {
			what := n.chans[id]
			n.later(func() {
				g.send(&frames.Payload{StreamID: id, Data: []byte(what), Next: true, Complete: true})
			})
		}
	}
	g.flush(ctx)
	return true
}

const ctl = "control"

// later gives an answer, at once or when the module is told to.
func (n *node) later(do func()) {
	if n.holds {
		n.held = append(n.held, do)
		return
	}
	do()
}

// control opens the control channel of a module and returns what has it give its answers.
func (n *node) control() func() {
	p := flux.NewProcessor[payload.Payload]()
	n.inst.RequestChannel(ctx0, payload.New(nil, meta(ctlOp, 0, "")), p).Subscribe(flux.Subscribe[payload.Payload]{})
	return func() {
		p.Next(payload.New(nil, nil))
		p.Complete()
	}
}

// request sends a request of the module.
func (n *node) request(a *ask) {
	id := n.nextID
	n.nextID += 2
	n.calls[id] = a
	n.send(&frames.RequestPayload{FrameType: kindOf[a.op.kind], StreamID: id, Metadata: meta(int(a.op.index), 0, "m"+a.data), Data: []byte(a.data), InitialN: 5, Complete: a.op.kind != RC})
}

func (n *node) answered(a *ask, f frames.Frame) {
	switch f := f.(type) {
	case *frames.Payload:
		if f.Next {
			a.got += string(f.Data)
		}
		if f.Complete {
			a.ends++
		}
	case *frames.Error:
		a.got += "error " + f.Data
		a.ends++
	case *frames.RequestN:
		n.send(&frames.Payload{StreamID: f.StreamID, Data: []byte("item"), Next: true})
		n.send(&frames.Payload{StreamID: f.StreamID, Complete: true})
	}
}

// calls makes calls to everything that is exported or imported, and judges where they arrive.
func (w *world) calls(when string) {
	type expected struct {
		a    *ask
		n    *node
		what string
	}
	var all []expected
	for _, n := range w.all {
		n.served = nil
	}
	expect := func(what string, e entry) *ask {
		w.n++
		a := &ask{what: what, op: e, data: fmt.Sprint("d", w.n)}
		x := expected{a: a}
		if p, index := w.provider(e.op); p != nil {
			x.n = p
			x.what = fmt.Sprint(p.name, " ", kindOf[e.kind], "@", index, " ", a.data, " m", a.data)
		}
		all = append(all, x)
		return a
	}
	// the imports
	for _, f := range w.order {
		n := w.nodes[f]
		for _, e := range n.ops {
			if e.imported {
				n.pending = append(n.pending, expect(fmt.Sprint(n.name, " ", e), e))
			}
		}
		if len(n.pending) > 0 {
			n.inst.FireAndForget(ctx0, payload.New(nil, meta(kickOp, 0, "")))
		}
	}
	// the mesh
	var ops []op
	for _, f := range w.order {
		for _, e := range w.nodes[f].ops {
			if !e.imported {
				known := false
				for _, o := range ops {
					known = known || o == e.op
				}
				if !known {
					ops = append(ops, e.op)
				}
			}
		}
	}
	for _, o := range ops {
		a := expect("the mesh", entry{op: o})
		w.call(a)
	}
	vrt.Sleep(0) // others go on as far as they can, but a replaced instance is not closed yet
	served := map[string]int{}
	for _, n := range w.all {
		for _, s := range n.served {
			served[s]++
		}
	}
	for _, x := range all {
		if x.n == nil {
			if x.a.op.kind != FNF && (x.a.ends != 1 || x.a.got != "error not_found") {
				vrt.Fail("unlinked", "%s: %s is not linked, but its call has %d ends and got %q", when, x.a.what, x.a.ends, x.a.got)
			}
			continue
		}
		if served[x.what] != 1 {
			vrt.Fail("mislinked", "%s: %s should reach %q once, but did %d times; served is %q, its answer is %q", when, x.a.what, x.what, served[x.what], keys(served), x.a.got)
		}
		delete(served, x.what)
		if x.a.op.kind != FNF && (x.a.ends != 1 || x.a.got != answerTo(x.a, x.what)) {
			vrt.Fail("answer", "%s: %s got the answer %q with %d ends instead of %q", when, x.a.what, x.a.got, x.a.ends, answerTo(x.a, x.what))
		}
	}
	if len(served) > 0 {
		vrt.Fail("mislinked", "%s: these arrived, although they are not linked: %q", when, keys(served))
	}
}

// answerTo is the answer to a request: what it is, and for a channel also the items of its input.
func answerTo(a *ask, what string) string {
	if a.op.kind == RC {
		return what + " item"
	}
	return what
}

func keys(m map[string]int) (k []string) {
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return
}

// call makes a call through the mesh.
func (w *world) call(a *ask) {
	p := payload.New([]byte(a.data), meta(0, 0, "m"+a.data))
	w.send(a, p)
}

func (w *world) send(a *ask, p payload.Payload) {
	o := a.op.op
	get := func(f flux.Flux[payload.Payload]) {
		if f == nil || reflect.ValueOf(f).Kind() == reflect.Ptr && reflect.ValueOf(f).IsNil() {
			a.got, a.ends = "nothing", 1
			return
		}
		f.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:  func(q payload.Payload) { a.got += string(q.Data()) },
			OnError: func(err error) { a.got += "error " + err.Error() },
			Finally: func(rx.SignalType) { a.ends++ },
		})
	}
	switch o.kind {
	case RR:
		m := w.m.RequestResponse(ctx0, o.ns, o.name, p)
		if m == nil {
			a.got, a.ends = "nothing", 1
			return
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(q payload.Payload) { a.got += string(q.Data()) },
			OnError:   func(err error) { a.got += "error " + err.Error() },
			Finally:   func(rx.SignalType) { a.ends++ },
		})
	case FNF:
		w.m.FireAndForget(ctx0, o.ns, o.name, p)
	case RS:
		get(w.m.RequestStream(ctx0, o.ns, o.name, p))
	case RC:
		get(w.m.RequestChannel(ctx0, o.ns, o.name, p, flux.FromSlice([]payload.Payload{payload.New([]byte("item"), nil)})))
	}
}

func run(loads []load) {
	w := newWorld()
	for i, l := range loads {
		w.load(l)
		if i >= len(loads)-2 {
			w.calls(fmt.Sprint("after ", i+1, " loads"))
		}
	}
	vrt.Quiesce() // replaced ones are closed
	w.calls("later")
	w.m.Close()
	vrt.Quiesce()
	if b := vrt.Blocked(); len(b) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", b)
	}
}

// reload loads a module again while calls to it are in progress.
func reload(kinds []operations.RequestType, release int, also bool) {
	w := newWorld()
	var ops []op
	for i, k := range kinds {
		ops = append(ops, op{"n", fmt.Sprint("o", i), k})
	}
	im := w.load(load{"I", layoutOf(ops, true, 1)})
	a := w.load(load{"A", layoutOf(ops, false, 1)})
	start := func() (asks []*ask) {
		for _, e := range im.ops {
			w.n++
			x := &ask{what: fmt.Sprint("a call of I, ", e.op), op: e, data: fmt.Sprint("d", w.n)}
			asks = append(asks, x)
			im.pending = append(im.pending, x)
		}
		im.inst.FireAndForget(ctx0, payload.New(nil, meta(kickOp, 0, "")))
		for _, o := range ops {
			w.n++
			x := &ask{what: fmt.Sprint("a call of the mesh, ", o), op: entry{op: o}, data: fmt.Sprint("d", w.n)}
			asks = append(asks, x)
			w.call(x)
		}
		return
	}
	judge := func(n *node, asks []*ask, answered bool) {
		for _, x := range asks {
			var index uint32
			for _, e := range n.ops {
				if e.op == x.op.op {
					index = e.index
				}
			}
			what := fmt.Sprint(n.name, " ", kindOf[x.op.kind], "@", index, " ", x.data, " m", x.data)
			served := 0
			for _, s := range n.served {
				if s == what {
					served++
				}
			}
			if served != 1 {
				vrt.Fail("mislinked", "%s should reach %q once, but did %d times", x.what, what, served)
			}
			if x.op.kind == FNF {
				continue
			}
			if !answered {
				if x.ends != 0 || x.got != "" {
					vrt.Fail("ended", "%s was not answered yet, but got %q and %d ends", x.what, x.got, x.ends)
				}
			} else if x.ends != 1 || x.got != answerTo(x, what) {
				vrt.Fail("answer", "%s got the answer %q with %d ends instead of %q", x.what, x.got, x.ends, answerTo(x, what))
			}
		}
	}
	a.holds = true
	free := a.control()
	before := start()
	vrt.Sleep(0)
	judge(a, before, false)
	if release == 0 {
		free()
	}
	b := w.load(load{"A", layoutOf(ops, false, 0)})
	b.holds = also
	freeB := b.control()
	after := start()
	vrt.Sleep(200 * time.Millisecond) // calls in progress have a while before their instance is closed
	if release == 1 {
		free()
	}
	vrt.Sleep(0)
	judge(a, before, release <= 1)
	judge(b, after, !also)
	vrt.Quiesce()     // the first one is closed, as soon as its calls are done
	if release == 2 { // time was up for its calls
		for _, x := range before {
			if x.op.kind != FNF && (x.ends != 1 || !strings.HasPrefix(x.got, "error ")) {
				vrt.Fail("pending", "%s, which was not answered, has %d ends and got %q after its module was closed", x.what, x.ends, x.got)
			}
		}
	} else {
		judge(a, before, true)
	}
	judge(b, after, !also)
	freeB()
	last := start()
	vrt.Quiesce()
	judge(b, after, true)
	judge(b, last, true)
	w.m.Close()
	vrt.Quiesce()
	if b := vrt.Blocked(); len(b) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", b)
	}
}

// during makes calls of the mesh and of a module while a module is loaded again.
func during(kinds []operations.RequestType, importer bool) {
	w := newWorld()
	var ops []op
	for i, k := range kinds {
		ops = append(ops, op{"n", fmt.Sprint("o", i), k})
	}
	im := w.load(load{"I", layoutOf(ops, true, 1)})
	a := w.load(load{"A", layoutOf(ops, false, 1)})
	var asks []*ask
	for i, o := range ops {
		x := &ask{what: fmt.Sprint("a call of ", o), op: im.ops[i], data: fmt.Sprint("d", i)}
		asks = append(asks, x)
		if importer {
			im.pending = append(im.pending, x)
			continue
		}
		vrt.GoNamed(fmt.Sprint("caller", i), func() { w.call(x) })
	}
	if importer {
		vrt.GoNamed("kick", func() { im.inst.FireAndForget(ctx0, payload.New(nil, meta(kickOp, 0, ""))) })
	}
	b := w.load(load{"A", layoutOf(ops, false, 0)})
	vrt.Quiesce()
	for i, x := range asks {
		var hit []string
		for _, n := range []*node{a, b} {
			what := fmt.Sprint(n.name, " ", kindOf[x.op.kind], "@", n.ops[i].index, " ", x.data, " m", x.data)
			for _, s := range n.served {
				if s == what {
					hit = append(hit, what)
				}
			}
		}
		if len(hit) != 1 {
			vrt.Fail("mislinked", "%s reached %q; there were %q and %q", x.what, hit, a.served, b.served)
		}
		if x.op.kind != FNF && (x.ends != 1 || x.got != answerTo(x, hit[0])) {
			vrt.Fail("answer", "%s got the answer %q with %d ends instead of %q", x.what, x.got, x.ends, answerTo(x, hit[0]))
		}
		vrt.Outcome("%v", hit[0][:1])
	}
	if n := len(a.served) + len(b.served); n != len(asks) {
		vrt.Fail("mislinked", "%d calls arrived instead of %d", n, len(asks))
	}
	w.calls("later")
	w.m.Close()
	vrt.Quiesce()
}

// perms are all orders of n things.
func perms(n int) (all [][]int) {
	if n == 0 {
		return [][]int{nil}
	}
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			all = append(all, q)
		}
	}
	return
}

// layoutOf gives operations their indices.
func layoutOf(ops []op, imported bool, way int) (es []entry) {
	for i, o := range ops {
		x := uint32(i)
		switch way {
		case 1:
			x = uint32(len(ops) - i + 2)
		case 2: // as in real modules: counted for each kind
			x = 0
			for _, p := range ops[:i] {
				if p.kind == o.kind {
					x++
				}
			}
		case 3:
			x = uint32(i)<<24 + 1<<16 + 9
			if imported { // the host keeps a list of them
				x = uint32(len(ops)-i)*11 + 1
			}
		}
		es = append(es, entry{o, imported, x})
	}
	return
}

// mixed: the same payload is used for several calls
func mixed(kinds []operations.RequestType, md []byte, lazily bool) {
	w := newWorld()
	var ops []op
	for i, k := range kinds {
		ops = append(ops, op{"n", fmt.Sprint("o", i), k})
	}
	a := w.load(load{"A", layoutOf(ops, false, 1)})
	before := string(md)
	p := payload.New([]byte("d"), md)
	var asks []*ask
	var start []func()
	for _, e := range a.ops {
		x := &ask{op: e, data: "d"}
		asks = append(asks, x)
		switch e.kind {
		case RR:
			m := w.m.RequestResponse(ctx0, e.ns, e.name, p)
			start = append(start, func() {
				m.Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(q payload.Payload) { x.got += string(q.Data()) },
					OnError:   func(err error) { x.got += "error " + err.Error() },
					Finally:   func(rx.SignalType) { x.ends++ },
				})
			})
		case FNF:
			start = append(start, func() { w.send(x, p) })
		default:
			var f flux.Flux[payload.Payload]
			if e.kind == RS {
				f = w.m.RequestStream(ctx0, e.ns, e.name, p)
			} else {
				f = w.m.RequestChannel(ctx0, e.ns, e.name, p, flux.FromSlice([]payload.Payload{payload.New([]byte("item"), nil)}))
			}
			start = append(start, func() {
				f.Subscribe(flux.Subscribe[payload.Payload]{
					OnNext:  func(q payload.Payload) { x.got += string(q.Data()) },
					OnError: func(err error) { x.got += "error " + err.Error() },
					Finally: func(rx.SignalType) { x.ends++ },
				})
			})
		}
		if !lazily {
			start[len(start)-1]()
		}
	}
	if lazily {
		for _, f := range start {
			f()
		}
	}
	vrt.Quiesce()
	served := map[string]int{}
	for _, s := range a.served {
		served[s]++
	}
	extra := ""
	if len(md) > 8 {
		extra = string(md[8:])
	}
	for _, x := range asks {
		what := fmt.Sprint(a.name, " ", kindOf[x.op.kind], "@", x.op.index, " d ", extra)
		if served[what] != 1 {
			vrt.Fail("mislinked", "the call of %s should arrive as %q once, but did %d times; there were %q", x.op.op, what, served[what], keys(served))
		}
		if x.op.kind != FNF && (x.ends != 1 || x.got != answerTo(x, what)) {
			vrt.Fail("answer", "the call of %s got %q with %d ends", x.op.op, x.got, x.ends)
		}
	}
	if string(md) != before {
		vrt.Fail("changed", "the caller's metadata was changed")
	}
	w.m.Close()
}

func main() {
	hx.Main("C22", func(s *hx.Suite) {
		s.Assumptions = []string{"the wazero runtime is trusted", "a module that is loaded again exports what it has exported before"}
		one := vrt.Config{Delay: true, Bound: 0}
		try := func(e *hx.E, loads []load) {
			e.Case(func() string { return fmt.Sprint(loads) }, func() { e.Sched(one, func() { run(loads) }) })
		}
		U := []op{{"n", "a", RR}, {"n", "a", FNF}, {"n", "a", RS}, {"n", "a", RC}, {"n", "b", RR}, {"n", "b", RS}, {"m", "a", RR}}
		subsets := func(max int) (all [][]op) {
			for m := 0; m < 1<<len(U); m++ {
				var t []op
				for i, o := range U {
					if m>>i&1 == 1 {
						t = append(t, o)
					}
				}
				if len(t) <= max {
					all = append(all, t)
				}
			}
			return
		}
		s.Enum("an importer and providers", 8, func(e *hx.E) {
			for _, p := range subsets(hx.Pick(s, 2, 3)) {
				for _, q := range subsets(hx.Pick(s, 1, 2)) {
					for i, order := range perms(3) {
						for again := 0; again <= hx.Pick(s, 3, 12); again++ {
							files := []load{
								{"I", layoutOf(U, true, (i+1)%4)},
								{"P", layoutOf(p, false, 1)},
								{"Q", layoutOf(q, false, 3)},
							}
							next := []load{
								{"I", layoutOf(U, true, i%3)},
								{"P", layoutOf(p, false, 0)},
								{"Q", layoutOf(q, false, 2)},
							}
							var ls []load
							for _, k := range order {
								ls = append(ls, files[k])
							}
							if again > 0 && again <= 3 {
								ls = append(ls, next[again-1])
							} else if again > 3 {
								ls = append(ls, next[(again-4)/3], next[(again-4)%3])
								if (again-4)/3 == (again-4)%3 {
									continue
								}
							}
							if len(q) == 0 && again == 3 {
								continue
							}
							try(e, ls)
						}
					}
				}
			}
		})
		s.Enum("modules that do both", 8, func(e *hx.E) {
			// each of two modules imports, exports, both or neither of two operations
			small := []op{{"n", "a", RR}, {"n", "a", RS}}
			if s.Thorough() {
				small = append(small, op{"n", "b", RR})
			}
			var mods [][]entry
			for m := 0; m < pow(5, len(small)); m++ {
				var es []entry
				x := m
				for i, o := range small {
					d := x % 5
					x /= 5
					ex, im := entry{o, false, uint32(2 + i)}, entry{o, true, uint32(5 - i)}
					switch d {
					case 1:
						es = append(es, ex)
					case 2:
						es = append(es, im)
					case 3:
						es = append(es, ex, im)
					case 4:
						es = append(es, im, ex)
					}
				}
				mods = append(mods, es)
			}
			for i, a := range mods {
				try(e, []load{{"A", a}})
				try(e, []load{{"A", a}, {"A", a}})
				for _, b := range mods {
					try(e, []load{{"A", a}, {"B", b}})
					if i%hx.Pick(s, 5, 1) == 0 {
						try(e, []load{{"A", a}, {"B", b}, {"A", a}})
						try(e, []load{{"A", a}, {"B", b}, {"B", b}, {"A", a}})
					}
				}
			}
		})
		s.Enum("several importers", 8, func(e *hx.E) {
			for _, o := range U {
				for _, order := range perms(4) {
					for again := 0; again <= 4; again++ {
						files := []load{
							{"I", layoutOf([]op{o}, true, 1)},
							{"J", layoutOf([]op{U[0], o, U[1]}[:3], true, 0)},
							{"P", layoutOf([]op{U[4], o}, false, 0)},
							{"Q", layoutOf([]op{o}, false, 3)},
						}
						if o == U[0] || o == U[1] || o == U[4] {
							files[1].ops = layoutOf([]op{U[2], o}, true, 0)
							files[2].ops = layoutOf([]op{U[5], o}, false, 0)
						}
						var ls []load
						for _, k := range order {
							ls = append(ls, files[k])
						}
						if again > 0 {
							ls = append(ls, files[again-1])
						}
						try(e, ls)
					}
				}
			}
		})
		s.Enum("loaded again while calls are in progress", 8, func(e *hx.E) {
			all := []operations.RequestType{RR, FNF, RS, RC}
			for release := 0; release <= 2; release++ {
				for _, also := range []bool{false, true} {
					for m := 1; m < 16; m++ {
						var ks []operations.RequestType
						for i, k := range all {
							if m>>i&1 == 1 {
								ks = append(ks, k)
							}
						}
						ks, release, also := ks, release, also
						e.Case(func() string { return fmt.Sprint(ks, release, also) }, func() {
							e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 0, 1)}, func() { reload(ks, release, also) })
						})
					}
				}
			}
		})
		s.Enum("calls while a module is loaded again", 8, func(e *hx.E) {
			all := []operations.RequestType{RR, FNF, RS, RC}
			for _, importer := range []bool{false, true} {
				for _, a := range all {
					for _, b := range append([]operations.RequestType{0}, all...) {
						ks, importer := []operations.RequestType{a, b}, importer
						if b == 0 {
							ks = ks[:1]
						}
						e.Case(func() string { return fmt.Sprint(ks, importer) }, func() {
							e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 3-len(ks))}, func() { during(ks, importer) })
						})
					}
				}
			}
		})
		s.Enum("modules that cannot be loaded, operations nobody exports", 4, func(e *hx.E) {
			for _, how := range []string{"missing", "empty", "garbage", "truncated", "trap", "__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"} {
				for _, file := range []string{"A", "B", "I"} {
					for _, list := range []bool{false, true} {
						how, file, list := how, file, list
						e.Case(func() string { return fmt.Sprint(how, " ", file, " list ", list) }, func() {
							e.Sched(one, func() { unknown(op{}, how, file, list) })
						})
					}
				}
			}
			for _, k := range []operations.RequestType{RR, FNF, RS, RC} {
				for _, n := range [][2]string{{"n", "c"}, {"n", ""}, {"", "a"}, {"m", "a"}, {"n", "a"}, {"n", "b"}, {"", ""}} {
					k, n := k, n
					if n[1] == "a" && n[0] == "n" && k == RR || n[1] == "b" && k == RS {
						continue
					}
					e.Case(func() string { return fmt.Sprint("call of ", n, k) }, func() {
						e.Sched(one, func() { unknown(op{n[0], n[1], k}, "", "", false) })
					})
				}
			}
		})
		s.Enum("one payload for several calls", 4, func(e *hx.E) {
			all := []operations.RequestType{RR, FNF, RS, RC}
			for _, a := range all {
				for _, b := range all {
					for _, md := range [][]byte{meta(0, 0, "x"), meta(0, 0, ""), meta(900, 0, strings.Repeat("m", 300)), nil} {
						for _, lazily := range []bool{false, true} {
							ks, md, lazily := []operations.RequestType{a, b, a}, md, lazily
							e.Case(func() string { return fmt.Sprint(ks, len(md), lazily) }, func() {
								e.Sched(one, func() { mixed(ks, append([]byte(nil), md...), lazily) })
							})
						}
					}
				}
			}
		})
	})
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

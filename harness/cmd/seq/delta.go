//go:build go1.24

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/zzverif/lib"
)

// Documented layout of a change-log file.
const (
	dHead   = 14 // "RECDELTA", version, lock, count
	dRec    = 18 // op, user, item, checksum
	dLock   = 9
	dPrefix = "RECDELTA"
)

type pair struct{ u, i uint64 }

// drec is one stored operation.
type drec struct {
	op   byte
	u, i uint64
}

func (d drec) bytes() []byte {
	b := []byte{d.op}
	b = binary.BigEndian.AppendUint64(b, d.u)
	b = binary.BigEndian.AppendUint64(b, d.i)
	var s byte
	for _, x := range b {
		s += x
	}
	return append(b, s)
}

func dfile(locked byte, count uint32, recs ...drec) []byte {
	b := append([]byte(dPrefix), 1, locked)
	b = binary.BigEndian.AppendUint32(b, count)
	for _, r := range recs {
		b = append(b, r.bytes()...)
	}
	return b
}

// dparse reads the intact records, independently of the code under test.
func dparse(b []byte) (recs []drec) {
	if len(b) < dHead || string(b[:8]) != dPrefix {
		return nil
	}
	for b = b[dHead:]; len(b) >= dRec; b = b[dRec:] {
		d := drec{b[0], binary.BigEndian.Uint64(b[1:]), binary.BigEndian.Uint64(b[9:])}
		if d.op != '+' && d.op != '-' {
			continue
		}
		if bytes.Equal(d.bytes(), b[:dRec]) {
			recs = append(recs, d)
		}
	}
	return recs
}

// dmodel is the reference model of a change log.
type dmodel struct {
	stored  map[pair][]byte // operations in the file, in order
	pending map[pair]byte   // recorded since the last flush
	tried   map[pair][]byte // everything recorded since the last successful flush
}

func newDModel() *dmodel {
	return &dmodel{map[pair][]byte{}, map[pair]byte{}, map[pair][]byte{}}
}

func (m *dmodel) add(op byte, p pair) {
	m.pending[p] = op
	m.tried[p] = append(m.tried[p], op)
}

func (m *dmodel) flushed() {
	for p, op := range m.pending {
		m.stored[p] = append(m.stored[p], op)
	}
	m.pending = map[pair]byte{}
	m.tried = map[pair][]byte{}
}

// storedAnyway is a flush that was not acknowledged.
func (m *dmodel) storedAnyway() {
	tried := m.tried
	m.flushed()
	m.tried = tried
}

func (m *dmodel) last(p pair) (byte, bool) {
	if op, ok := m.pending[p]; ok {
		return op, true
	}
	return m.acked(p)
}

func (m *dmodel) acked(p pair) (byte, bool) {
	if l := m.stored[p]; len(l) > 0 {
		return l[len(l)-1], true
	}
	return 0, false
}

func (m *dmodel) total() int {
	n := len(m.pending)
	for _, l := range m.stored {
		n += len(l)
	}
	return n
}

func (m *dmodel) users() int {
	us := map[uint64]bool{}
	for p := range m.stored {
		us[p.u] = true
	}
	for p := range m.pending {
		us[p.u] = true
	}
	return len(us)
}

func (m *dmodel) pairs() []pair {
	set := map[pair]bool{}
	for p := range m.stored {
		set[p] = true
	}
	for p := range m.pending {
		set[p] = true
	}
	for p := range m.tried {
		set[p] = true
	}
	var out []pair
	for p := range set {
		out = append(out, p)
	}
	sort.Slice(out, func(a, b int) bool {
		if out[a].u != out[b].u {
			return out[a].u < out[b].u
		}
		return out[a].i < out[b].i
	})
	return out
}

func (m *dmodel) hash(h *lib.Hasher) {
	for _, p := range m.pairs() {
		h.Int(int64(p.u))
		h.Int(int64(p.i))
		h.Bytes(m.stored[p])
		h.Int(int64(m.pending[p]))
		h.Bytes(m.tried[p])
	}
}

func opName(op byte, ok bool) string {
	if !ok {
		return "absent"
	}
	return string(rune(op))
}

// dsys is a change log on a simulated disk.
type dsys struct {
	prop   string
	disk   *lib.Disk
	file   *lib.File
	env    *lib.Env
	st     domain.DeltaStorage
	m      *dmodel
	probes []pair
	ops    []dop
	inOp   string
	locked bool // the file must carry the mark now
	final  []byte
}

type dop struct {
	name string
	kind string
	op   byte
	p    pair
	n    int
}

// Users and items collide in their low bytes and with each other.
var (
	dU1, dU2 = uint64(1), uint64(1)<<40 | 1
	dP       = []pair{{dU1, dU2}, {dU1, dU1}, {dU2, dU1}, {dU2, dU2}}
)

func dops(pairs []pair, kinds ...string) (ops []dop) {
	for _, p := range pairs {
		for _, op := range []byte{'+', '-'} {
			ops = append(ops, dop{fmt.Sprintf("Add(%c, user=%#x, item=%#x)", op, p.u, p.i), "add", op, p, 0})
		}
	}
	for _, k := range kinds {
		ops = append(ops, dop{name: k, kind: k})
	}
	return ops
}

func dnames(ops []dop) (out []string) {
	for _, o := range ops {
		out = append(out, o.name)
	}
	return
}

func newDSys(prop string, ops []dop, start []byte) *dsys {
	s := &dsys{prop: prop, disk: &lib.Disk{Data: clone(start)}, env: &lib.Env{}, m: newDModel(), ops: ops}
	for _, d := range dparse(start) {
		p := pair{d.u, d.i}
		s.m.stored[p] = append(s.m.stored[p], d.op)
	}
	s.probes = append(s.m.pairs(), pair{77, 77}, pair{dU1, 78}, pair{dU2, 78}, pair{77, dU1})
	for _, o := range ops {
		if o.kind == "add" {
			s.probes = append(s.probes, o.p)
		}
	}
	if len(s.probes) > 40 {
		s.probes = append(s.probes[:20:20], s.probes[len(s.probes)-20:]...)
	}
	return s
}

func (s *dsys) Hash(h *lib.Hasher) {
	h.Bytes(s.disk.Data)
	if s.st != nil {
		h.Any(s.st)
	}
	s.m.hash(h)
}

var dFactory = delta.NewStorageFactory()

// call executes the operation without comparing anything. ok is false if it is
// not enabled.
func (s *dsys) call(o dop) (err error, ok bool) {
	if s.st == nil {
		switch o.kind {
		case "open", "openrec":
			s.file = lib.NewFile(s.disk, s.env)
			if o.kind == "open" {
				s.st, err = dFactory.Open(s.file)
			} else {
				s.st, err = dFactory.OpenMaybeRecover(s.file)
			}
			if err != nil {
				s.st = nil
			} else if s.st == nil {
				lib.Failf("nil", "%s returned neither a storage nor an error", o.kind)
			}
			return err, true
		}
		return nil, false
	}
	switch o.kind {
	case "add":
		s.st.Add(domain.DeltaOp(o.op), o.p.u, o.p.i)
		return nil, true
	case "bulk":
		for k := 0; k < o.n; k++ {
			p := bulkPair(o.p, k)
			s.st.Add(domain.DeltaOp(o.op), p.u, p.i)
		}
		return nil, true
	case "flush":
		return s.st.Flush(), true
	case "close":
		return s.st.Close(), true
	case "kill":
		return nil, true
	}
	return nil, false
}

func bulkPair(base pair, k int) pair {
	return pair{base.u + uint64(k%3), base.i + uint64(k)*257}
}

// apply updates the model after a successful call.
func (s *dsys) apply(o dop) {
	switch o.kind {
	case "add":
		s.m.add(o.op, o.p)
	case "bulk":
		for k := 0; k < o.n; k++ {
			s.m.add(o.op, bulkPair(o.p, k))
		}
	case "flush":
		s.m.flushed()
	case "close":
		s.m.flushed()
		s.st = nil
	case "kill":
		s.m.pending = map[pair]byte{}
		s.m.tried = map[pair][]byte{}
		s.st = nil
	}
}

func (s *dsys) Do(op int) bool {
	o := s.ops[op]
	if s.prop == "C08" {
		return s.doMarks(o)
	}
	if o.kind == "open" && len(s.disk.Data) > dLock && s.disk.Data[dLock] != 0 {
		return false // refused: see C08
	}
	err, ok := s.call(o)
	if !ok {
		return false
	}
	if err != nil {
		lib.Failf("unexpected-error", "%s failed: %v", o.name, err)
	}
	s.apply(o)
	s.check(o)
	return true
}

func (s *dsys) check(o dop) {
	switch s.prop {
	case "C01":
		s.checkGet()
	case "C02":
		s.checkCounts()
		if o.kind == "flush" {
			s.checkFile(1)
		}
		if o.kind == "close" {
			s.checkFile(0)
		}
	}
}

func (s *dsys) checkGet() {
	if s.st == nil {
		return
	}
	for _, p := range s.probes {
		got, ok := s.st.Get(p.u, p.i)
		want, wok := s.m.last(p)
		if ok != wok || ok && byte(got) != want {
			lib.Failf("get", "Get(user=%#x, item=%#x) = %s, want %s", p.u, p.i, opName(byte(got), ok), opName(want, wok))
		}
	}
}

func (s *dsys) checkCounts() {
	if s.st == nil {
		return
	}
	if n, w := s.st.GetTotalItemCount(), s.m.total(); n != w {
		lib.Failf("items", "GetTotalItemCount() = %d, want %d", n, w)
	}
	if n, w := s.st.GetUserCount(), s.m.users(); n != w {
		lib.Failf("users", "GetUserCount() = %d, want %d", n, w)
	}
	if n, w := s.st.GetFileSize(), uint64(dHead+dRec*s.m.total()); n != w {
		lib.Failf("size", "GetFileSize() = %d, want %d", n, w)
	}
}

// checkFile compares the file with the model: every stored operation exactly once.
func (s *dsys) checkFile(locked int) {
	b := s.disk.Data
	if want := dHead + dRec*s.m.total(); len(b) != want {
		lib.Failf("file-size", "the file is %d bytes long, want %d", len(b), want)
	}
	if string(b[:8]) != dPrefix || b[8] != 1 {
		lib.Failf("file-header", "the file starts with % x", b[:9])
	}
	if n := binary.BigEndian.Uint32(b[10:]); int(n) != s.m.total() {
		lib.Failf("file-count", "the header announces %d operations, want %d", n, s.m.total())
	}
	got := map[pair][]byte{}
	recs := dparse(b)
	if len(recs) != s.m.total() {
		lib.Failf("file-records", "the file holds %d intact records, want %d", len(recs), s.m.total())
	}
	for _, d := range recs {
		p := pair{d.u, d.i}
		got[p] = append(got[p], d.op)
	}
	for p, l := range s.m.stored {
		if string(got[p]) != string(l) {
			lib.Failf("file-ops", "the file holds %q for user=%#x item=%#x, want %q", got[p], p.u, p.i, l)
		}
	}
}

// Start files shared by the change-log checks.
type dstart struct {
	name string
	data []byte
}

func dstarts(locked byte) []dstart {
	recs := []drec{{'+', dU1, dU1}, {'-', dU2, dU1}, {'-', dU1, dU1}}
	odd := []drec{{'+', 0, 0}, {'-', ^uint64(0), ^uint64(0)}, {'+', 255, 1 << 32}, {'+', 0, dU1}}
	var many []drec
	for k := 0; k < 240; k++ { // more than a 4096-byte buffer
		many = append(many, drec{"+-"[k%2], dU1, uint64(1000 + k)})
	}
	many = append(many, drec{'+', dU1, dU1})
	return []dstart{
		{"no file", nil},
		{"3 operations", dfile(locked, 3, recs...)},
		{"extreme ids", dfile(locked, 4, odd...)},
		{"241 operations of one user", dfile(locked, uint32(len(many)), many...)},
	}
}

func dspace(name, prop string, ops []dop, starts []dstart, depth int) lib.Space {
	sp := lib.Space{Name: name, Ops: dnames(ops), Depth: depth}
	for _, st := range starts {
		sp.Starts = append(sp.Starts, st.name)
	}
	sp.New = func(i int) lib.System {
		return newDSys(prop, ops, starts[i].data)
	}
	return sp
}

func deltaHistories(prop string) func(r *lib.Run) {
	return func(r *lib.Run) {
		depth, bulkDepth := 7, 6
		if r.Thorough {
			depth, bulkDepth = 9, 8
		}
		ops := dops(dP, "flush", "close", "open", "openrec", "kill")
		starts := dstarts(0)
		bothOrders(r, func(sfx string) {
			r.BFS(dspace("histories"+sfx, prop, ops, starts[:1], depth))
			r.BFS(dspace("histories from a file"+sfx, prop, ops, starts[1:], bulkDepth))
			bulk := append(dops(dP[:2], "flush", "close", "open", "openrec", "kill"),
				dop{"Add 300 operations", "bulk", '+', pair{dU1, 5000}, 300}, dop{"Add 120 removals", "bulk", '-', pair{dU1, 5000}, 120})
			r.BFS(dspace("bulk histories"+sfx, prop, bulk, starts, bulkDepth))
		})
		logSizes(r, prop)
	}
}

func init() {
	asm := []string{"operation arguments are drawn from a small alphabet with colliding low bytes and a few extreme values", "map iteration is explored in ascending and descending key order"}
	checks["C01"] = lib.Check{Level: "model_checking", Rule: "breadth-first over operation histories of the real change log, merged on the complete concrete state; after every operation Get is compared with the model for all pairs", Assumptions: asm, Fn: deltaHistories("C01")}
	checks["C02"] = lib.Check{Level: "model_checking", Rule: "breadth-first over operation histories of the real change log, merged on the complete concrete state; after every operation the counters, and after every flush and close the file, are compared with the model", Assumptions: asm, Fn: deltaHistories("C02")}
}

var _ = strings.Join

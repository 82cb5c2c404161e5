package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/roy2220/plainkv"
)

// Operations.
const (
	opSet = iota
	opSetX
	opSetNX
	opClear
	opTest
	opReopen
)

var opNames = []string{"Set", "SetIfExists", "SetIfNotExists", "Clear", "Test", "Reopen"}

// Op is an operation on a dictionary.
type Op struct {
	Kind int    `json:"op"`
	K    []byte `json:"k,omitempty"`
	V    []byte `json:"v,omitempty"`
	Mark int    `json:"m,omitempty"` // 1: the key is MinKey, 2: MaxKey
	Want bool   `json:"w,omitempty"`
	Nil  bool   `json:"nil,omitempty"` // an empty key or value is passed as nil
}

func (o Op) String() string {
	k, v := short(o.K), short(o.V)
	if o.Nil && len(o.K) == 0 {
		k = "nil"
	}
	if o.Nil && len(o.V) == 0 {
		v = "nil"
	}
	switch o.Mark {
	case 1:
		k = "MinKey"
	case 2:
		k = "MaxKey"
	}
	switch o.Kind {
	case opReopen:
		return "Reopen"
	case opSet, opSetX, opSetNX:
		return fmt.Sprintf("%s(%s,%s,%v)", opNames[o.Kind], k, v, o.Want)
	}
	return fmt.Sprintf("%s(%s,%v)", opNames[o.Kind], k, o.Want)
}

// TableGeom describes a hash table.
type TableGeom struct {
	Items []Rec `json:"items"`
	Slots int   `json:"slots"`
	Spare int   `json:"spare,omitempty"` // directories beyond those needed
	Wide  int   `json:"wide,omitempty"`  // by how many bits the directory array is larger than needed
}

// Path is an execution: an initial state, an environment and a history.
type Path struct {
	Ord   bool       `json:"ordered"`
	Env   EnvCfg     `json:"env"`
	Geom  *Geom      `json:"geom,omitempty"`
	Table *TableGeom `json:"table,omitempty"`
	Ops   []Op       `json:"ops"`
	Probe []int      `json:"probe,omitempty"` // operations before which everything is read; nil: probesOf
}

// Res is what an operation returned.
type Res struct {
	Val   []byte
	Ok    bool
	Panic string
}

// Out is the verdict of the reference model on an operation.
type Out struct {
	Res
	Bad string // difference from the reference model
}

// Subj is a dictionary under test together with its reference model.
type Subj struct {
	salt      int     // makes what is read in between differ
	lastRange *aRange // read last
	lastLook  []byte  // looked up last

	ord      bool
	env      *Env
	od       *plainkv.OrderedDict
	dd       *plainkv.Dict
	vals     map[string]string
	sorted   []string // valid if ordered
	scribble bool
	handed   []handedOut
	opened   bool
	rootHint int64
	// slices which operations are given as they are (concur.go)
	args map[string][]byte
}

type handedOut struct {
	b, want []byte
	what    string
}

func guard(f func()) (msg string) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
			if msg == "" {
				msg = "panic"
			}
			msg += panicSite()
		}
	}()
	f()
	return ""
}

// panicSite names the innermost functions of the repository in the stack.
func panicSite() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	var names []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "roy2220/plainkv") && len(names) < 3 {
			names = append(names, f.Function[strings.LastIndex(f.Function, "/")+1:])
		}
		if !more {
			break
		}
	}
	if len(names) == 0 {
		return ""
	}
	return " in " + strings.Join(names, " < ")
}

// start opens the initial state of a path. Template: image to clone, if any.
func startPath(p *Path, tmpl *Env, scribble bool) (*Subj, string) {
	s := &Subj{ord: p.Ord, vals: map[string]string{}, scribble: scribble, rootHint: -1}
	if tmpl != nil {
		s.env = tmpl.clone()
	} else {
		s.env = newEnv(p.Env)
	}
	if p.Geom != nil {
		for _, l := range p.Geom.Leafs {
			for _, r := range l {
				s.put(string(r.Key), string(r.Val))
			}
		}
	}
	if p.Table != nil {
		for _, r := range p.Table.Items {
			s.put(string(r.Key), string(r.Val))
		}
	}
	return s, s.open(tmpl == nil)
}

// template builds the image of the initial state of a path, nil if empty.
func template(p *Path) *Env {
	switch {
	case p.Geom != nil:
		return buildImage(p.Env, func(w Writer) []byte { return encodeTreeInfo(encodeTree(w, p.Geom)) })
	case p.Table != nil:
		return buildImage(p.Env, func(w Writer) []byte {
			return encodeHashInfo(encodeTable(w, p.Table))
		})
	}
	return nil
}

func (s *Subj) open(create bool) string {
	var err error
	s.env.budget(defaultBudget)
	if m := guard(func() {
		if s.ord {
			s.od, err = plainkv.OpenOrderedDict(s.env.Name, create)
		} else {
			s.dd, err = plainkv.OpenDict(s.env.Name, create)
		}
	}); m != "" {
		return "open panics: " + m
	}
	if err != nil {
		return "open fails: " + err.Error()
	}
	s.opened = true
	return ""
}

func (s *Subj) close() string {
	if !s.opened {
		return ""
	}
	s.opened = false
	var err error
	s.env.budget(defaultBudget)
	if m := guard(func() {
		if s.ord {
			err = s.od.Close()
		} else {
			err = s.dd.Close()
		}
	}); m != "" {
		return "Close panics: " + m
	}
	if err != nil {
		return "Close fails: " + err.Error()
	}
	return ""
}

// end releases the file.
func (s *Subj) end() {
	if s.opened && !isSim {
		s.close()
	}
	s.env.drop()
}

// ---- reference model

func (s *Subj) get(k string) (string, bool) { v, ok := s.vals[k]; return v, ok }

func (s *Subj) put(k, v string) {
	if s.ord {
		if _, ok := s.vals[k]; !ok {
			i := sort.SearchStrings(s.sorted, k)
			s.sorted = append(s.sorted, "")
			copy(s.sorted[i+1:], s.sorted[i:])
			s.sorted[i] = k
		}
	}
	s.vals[k] = v
}

func (s *Subj) del(k string) {
	if s.ord {
		if i := sort.SearchStrings(s.sorted, k); i < len(s.sorted) && s.sorted[i] == k {
			s.sorted = append(s.sorted[:i], s.sorted[i+1:]...)
		}
	}
	delete(s.vals, k)
}

func (s *Subj) keys() []string {
	if s.ord {
		return s.sorted
	}
	ks := make([]string, 0, len(s.vals))
	for k := range s.vals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *Subj) payload() int {
	n := 0
	for k, v := range s.vals {
		n += len(k) + len(v)
	}
	return n
}

// modelOp performs the operation on the model and returns the previous value
// (asked for), the flag, and whether a value may be delivered.
func (s *Subj) modelOp(o *Op) (val string, has bool, ok bool) {
	k := string(o.K)
	if s.ord && o.Mark != 0 {
		if len(s.sorted) == 0 {
			// markers designate nothing in an empty dictionary
			return "", false, false
		}
		if o.Mark == 1 {
			k = s.sorted[0]
		} else {
			k = s.sorted[len(s.sorted)-1]
		}
	}
	old, present := s.get(k)
	switch o.Kind {
	case opSet:
		s.put(k, string(o.V))
		return old, present, true
	case opSetX:
		if present {
			s.put(k, string(o.V))
		}
		return old, present, present
	case opSetNX:
		if !present {
			s.put(k, string(o.V))
		}
		return old, present, !present
	case opClear:
		if present {
			s.del(k)
		}
		return old, present, present
	case opTest:
		return old, present, present
	}
	panic("op")
}

// ---- execution

const sentinel = 0x5C

func argCopy(b []byte) []byte {
	c := make([]byte, len(b)+8)
	copy(c, b)
	for i := len(b); i < len(c); i++ {
		c[i] = sentinel
	}
	return c[:len(b)]
}

func argCheck(arg, orig []byte) string {
	if !bytes.Equal(arg, orig) {
		return "changed an argument"
	}
	for _, c := range arg[len(arg):cap(arg)] {
		if c != sentinel {
			return "wrote behind an argument"
		}
	}
	return ""
}

func scribbleOver(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xEE
	}
}

func (s *Subj) rawOp(o *Op, k, v []byte) (r Res) {
	s.env.budget(defaultBudget)
	r.Panic = guard(func() {
		if s.ord {
			switch o.Kind {
			case opSet:
				r.Val = s.od.Set(k, v, o.Want)
				r.Ok = true
			case opSetX:
				r.Val, r.Ok = s.od.SetIfExists(k, v, o.Want)
			case opSetNX:
				r.Val, r.Ok = s.od.SetIfNotExists(k, v, o.Want)
			case opClear:
				r.Val, r.Ok = s.od.Clear(k, o.Want)
			case opTest:
				r.Val, r.Ok = s.od.Test(k, o.Want)
			}
			return
		}
		switch o.Kind {
		case opSet:
			r.Val = s.dd.Set(k, v, o.Want)
			r.Ok = true
		case opSetX:
			r.Val, r.Ok = s.dd.SetIfExists(k, v, o.Want)
		case opSetNX:
			r.Val, r.Ok = s.dd.SetIfNotExists(k, v, o.Want)
		case opClear:
			r.Val, r.Ok = s.dd.Clear(k, o.Want)
		case opTest:
			r.Val, r.Ok = s.dd.Test(k, o.Want)
		}
	})
	return
}

// do performs an operation on the dictionary and the model and compares.
func (s *Subj) do(o *Op) Out {
	if o.Kind == opReopen {
		if m := s.close(); m != "" {
			return Out{Res: Res{Panic: m}}
		}
		if m := s.open(false); m != "" {
			return Out{Res: Res{Panic: m}}
		}
		return Out{}
	}
	if s.ord && o.Mark != 0 && (o.Kind == opSet || o.Kind == opSetNX) && len(s.sorted) == 0 {
		return Out{} // a marker designates nothing here: not specified
	}
	var k, v []byte
	shared := s.args[string(o.K)]
	switch {
	case s.ord && o.Mark == 1:
		k = plainkv.MinKey
	case s.ord && o.Mark == 2:
		k = plainkv.MaxKey
	case o.Nil && len(o.K) == 0:
		// nil
	case s.scribble:
		k = argCopy(o.K)
	case shared != nil:
		k = shared
	default:
		k = append(make([]byte, 0, len(o.K)), o.K...)
	}
	if o.Kind <= opSetNX && !(o.Nil && len(o.V) == 0) {
		if s.scribble {
			v = argCopy(o.V)
		} else if v = s.args[string(o.V)]; v == nil {
			v = append(make([]byte, 0, len(o.V)), o.V...)
		}
	}
	r := s.rawOp(o, k, v)
	out := Out{Res: r}
	if r.Panic != "" {
		return out
	}
	val, has, ok := s.modelOp(o)
	switch {
	case r.Ok != ok:
		out.Bad = fmt.Sprintf("%s reports %v, not %v", o, r.Ok, ok)
	case o.Want && has && !bytes.Equal(r.Val, []byte(val)):
		out.Bad = fmt.Sprintf("%s returns %s, not %s", o, short(r.Val), short([]byte(val)))
	case (!o.Want || !has) && len(r.Val) != 0:
		out.Bad = fmt.Sprintf("%s returns %s, although no value is due", o, short(r.Val))
	}
	if s.scribble {
		if o.Mark == 0 || !s.ord {
			if m := argCheck(k, o.K); m != "" && out.Bad == "" {
				out.Bad = fmt.Sprintf("%s %s", o, m)
			}
			scribbleOver(k)
		}
		if v != nil {
			if m := argCheck(v, o.V); m != "" && out.Bad == "" {
				out.Bad = fmt.Sprintf("%s %s", o, m)
			}
			scribbleOver(v)
		}
		s.hand(r.Val, fmt.Sprintf("the value returned by %s", o))
	}
	return out
}

// hand takes note of a slice handed out: every second is overwritten (also
// behind its end), the others must never change.
func (s *Subj) hand(b []byte, what string) {
	if len(b) == 0 {
		return
	}
	if len(s.handed)%2 == 1 {
		scribbleOver(b)
		s.handed = append(s.handed, handedOut{b, append([]byte(nil), b...), what})
		return
	}
	s.handed = append(s.handed, handedOut{b, append([]byte(nil), b...), what})
}

func (s *Subj) checkHanded() string {
	for _, h := range s.handed {
		if !bytes.Equal(h.b, h.want) {
			return h.what + " changed later on"
		}
	}
	return ""
}

// ---- observation through the interface

// ample grants the calls of the storage which reading everything may take.
func (s *Subj) ample() { s.env.budget(int64(defaultBudget) + 1000*int64(len(s.vals))) }

// dump returns all records via the interface (Dict: in order of scanning).
func (s *Subj) dump() (rs []Rec, bad string) {
	s.ample()
	limit := len(s.vals)*2 + 100
	m := guard(func() {
		if s.ord {
			it := s.od.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
			for !it.IsAtEnd() {
				k, v, err := it.ReadRecordAll()
				if err != nil {
					bad = "ReadRecordAll fails: " + err.Error()
					return
				}
				rs = append(rs, Rec{k, v})
				if len(rs) > limit {
					bad = "iteration does not end"
					return
				}
				it.Advance()
			}
			return
		}
		var c plainkv.DictCursor
		for {
			k, v, ok := s.dd.Scan(&c)
			if !ok {
				return
			}
			rs = append(rs, Rec{k, v})
			if len(rs) > limit {
				bad = "scan does not end"
				return
			}
		}
	})
	if m != "" {
		bad = "reading everything panics: " + m
	}
	return
}

// same compares a dump with the model.
func (s *Subj) same(rs []Rec) string {
	if len(rs) != len(s.vals) {
		return fmt.Sprintf("%d records delivered, %d are present", len(rs), len(s.vals))
	}
	if s.ord {
		for i, k := range s.sorted {
			if string(rs[i].Key) != k {
				return fmt.Sprintf("record %d has key %s, not %s", i, short(rs[i].Key), short([]byte(k)))
			}
			if string(rs[i].Val) != s.vals[k] {
				return fmt.Sprintf("key %s has value %s, not %s", short(rs[i].Key), short(rs[i].Val), short([]byte(s.vals[k])))
			}
		}
		return ""
	}
	seen := make(map[string]bool, len(rs))
	for _, r := range rs {
		if seen[string(r.Key)] {
			return fmt.Sprintf("key %s delivered twice", short(r.Key))
		}
		seen[string(r.Key)] = true
		v, ok := s.vals[string(r.Key)]
		if !ok {
			return fmt.Sprintf("key %s delivered, which is absent", short(r.Key))
		}
		if string(r.Val) != v {
			return fmt.Sprintf("key %s has value %s, not %s", short(r.Key), short(r.Val), short([]byte(v)))
		}
	}
	return ""
}

// lookAll looks up every key of the model and the probes given.
func (s *Subj) look(k []byte) string {
	o := Op{Kind: opTest, K: k, Want: true}
	out := s.do(&o)
	if out.Panic != "" {
		return o.String() + " panics: " + out.Panic
	}
	return out.Bad
}

func (s *Subj) lookAll(probes [][]byte) string {
	check := s.look
	for _, k := range s.keys() {
		if m := check([]byte(k)); m != "" {
			return m
		}
	}
	for _, k := range probes {
		if m := check(k); m != "" {
			return m
		}
	}
	return ""
}

// Nums are the counters reported.
type Nums struct{ Height, Leafs, NonLeafs, Records, Payload, Dirs, Slots int }

func (s *Subj) nums() (n Nums, bad string) {
	bad = guard(func() {
		if s.ord {
			st := s.od.Stats()
			n = Nums{Height: st.BPTreeHeight, Leafs: st.NumberOfBPTreeLeafs, NonLeafs: st.NumberOfBPTreeNonLeafs,
				Records: st.NumberOfBPTreeRecords, Payload: st.PayloadSize}
			return
		}
		st := s.dd.Stats()
		n = Nums{Dirs: st.NumberOfHashSlotDirs, Slots: st.NumberOfHashSlots, Records: st.NumberOfHashItems, Payload: st.PayloadSize}
	})
	return
}

// ---- observation of the storage (model storage only while open)

func (s *Subj) structPtr() reflect.Value {
	if s.ord {
		return reflect.ValueOf(s.od).Elem()
	}
	return reflect.ValueOf(s.dd).Elem()
}

func walkInts(v reflect.Value, f func(int64), depth int) {
	if strings.HasPrefix(v.Type().PkgPath(), "github.com/roy2220/fsm") || depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walkInts(v.Field(i), f, depth+1)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		f(int64(v.Uint()))
	case reflect.Bool:
		if v.Bool() {
			f(1)
		} else {
			f(0)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			walkInts(v.Elem(), f, depth+1)
		}
	case reflect.Slice, reflect.Array:
		f(int64(v.Len()))
		for i := 0; i < v.Len() && i < 4096; i++ {
			walkInts(v.Index(i), f, depth+1)
		}
	case reflect.String:
		f(int64(fnv64a([]byte(v.String()))))
	case reflect.Map:
		f(int64(v.Len()))
	}
}

// peekTree finds and reads the tree of an open dictionary in the storage.
func (s *Subj) peekTree() *Tree {
	n, bad := s.nums()
	if bad != "" {
		return nil
	}
	var best *Tree
	s.env.image(func(img Image, _ int64) {
		best = findTree(img, s.structPtr(), n.Height, s.env)
	})
	return best
}

func findTree(img Image, v reflect.Value, height int, env *Env) *Tree {
	var best *Tree
	var cands []int64
	walkInts(v, func(x int64) {
		if x >= 0 && img.Aligned(x) != nil {
			for _, c := range cands {
				if c == x {
					return
				}
			}
			cands = append(cands, x)
		}
	}, 0)
	for _, c := range cands {
		t := decodeTree(img, c, height)
		better := best == nil || (len(best.Problems) > 0 && len(t.Problems) == 0) ||
			(len(t.Problems) == 0 && len(t.Pages) > len(best.Pages))
		if better {
			best = t
		}
		if len(t.Problems) == 0 && len(t.Structure) == 0 && len(cands) > 1 && len(t.Leafs) > 1 {
			break
		}
	}
	return best
}

// peekTable finds and reads the table of an open dictionary in the storage.
func (s *Subj) peekTable() *Table {
	n, bad := s.nums()
	if bad != "" {
		return nil
	}
	var best *Table
	s.env.image(func(img Image, _ int64) {
		best = findTable(img, s.structPtr(), n.Dirs, n.Slots)
	})
	return best
}

func findTable(img Image, v reflect.Value, dirs, slots int) *Table {
	var best *Table
	walkInts(v, func(x int64) {
		if x >= 0 && img.Space(x) != nil && (best == nil || len(best.Problems) > 0) {
			t := decodeTable(img, x, dirs, slots)
			if best == nil || len(t.Problems) == 0 {
				best = t
			}
		}
	}, 0)
	return best
}

// stateHash canonically hashes stored contents and members.
func (s *Subj) stateHash() (hashKey, bool) {
	h := newHasher()
	complete := true
	if s.ord {
		t := s.peekTree()
		if t == nil || len(t.Problems) > 0 {
			complete = false
		} else {
			t.hash(h)
		}
	} else {
		t := s.peekTable()
		if t == nil || len(t.Problems) > 0 {
			complete = false
		} else {
			t.hash(h)
		}
	}
	s.env.image(func(img Image, _ int64) {
		walkInts(s.structPtr(), func(x int64) {
			if x >= 0 && (img.Aligned(x) != nil || img.Space(x) != nil) {
				h.int(-77)
				return
			}
			h.int(int(x))
		}, 0)
	})
	return h.sum(), complete
}

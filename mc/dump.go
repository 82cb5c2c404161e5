package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"syscall"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv/bptree"
)

// ---- C21: the debug dump

var errWriter = errors.New("the writer fails")

// failingWriter fails at write number at (from 0; -1: never).
type failingWriter struct {
	text   strings.Builder
	writes int
	at     int
	mode   int // 0 nothing written, 1 half of it, 2 all of it, 3 fails only once
	after  int // writes after the failure
	failed bool
	err    error
}

// writerErrors are what a writer may fail with.
var writerErrors = []error{errWriter, io.EOF, syscall.EINTR, io.ErrShortWrite, temporary{}, io.ErrClosedPipe, os.ErrClosed, syscall.EAGAIN}

// temporary is an error which claims to be temporary.
type temporary struct{}

func (temporary) Error() string   { return "the writer is busy" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// ableWriter has the methods of other kinds of writers, too.
type ableWriter struct{ failingWriter }

func (w *ableWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *ableWriter) WriteRune(r rune) (int, error)     { return w.Write([]byte(string(r))) }
func (w *ableWriter) Flush() error                      { return nil }
func (w *ableWriter) Sync() error                       { return nil }

func (w *ableWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w *ableWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 512)
	for {
		m, err := r.Read(b)
		if m > 0 {
			k, err2 := w.Write(b[:m])
			n += int64(k)
			if err2 != nil {
				return n, err2
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (w *failingWriter) Write(b []byte) (int, error) {
	i := w.writes
	w.writes++
	if w.failed {
		w.after++
		if w.mode != 3 {
			return 0, w.err
		}
	}
	if i == w.at {
		w.failed = true
		n := 0
		switch w.mode {
		case 1:
			n = len(b) / 2
		case 2:
			n = len(b)
		}
		w.text.Write(b[:n])
		return n, w.err
	}
	w.text.Write(b)
	return len(b), nil
}

// dumpedRecords finds the records in the text of a dump.
func dumpedRecords(s string) (rs []Rec, bad string) {
	quoted := func() ([]byte, string) {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return nil, "the dump has an unterminated string"
		}
		s = s[len(q):]
		u, err := strconv.Unquote(q)
		if err != nil {
			return nil, "the dump has a malformed string " + q
		}
		return []byte(u), ""
	}
	for {
		i := strings.IndexByte(s, '"')
		if i < 0 {
			return
		}
		s = s[i:]
		var k, v []byte
		if k, bad = quoted(); bad != "" {
			return
		}
		if !strings.HasPrefix(s, "=\"") {
			continue // a separator
		}
		s = s[1:]
		if v, bad = quoted(); bad != "" {
			return
		}
		rs = append(rs, Rec{k, v})
	}
}

// failPoints selects the writes to fail: all of a short dump, otherwise those
// at the borders of nodes, and some more.
func failPoints(text []string, limit int) []int {
	n := len(text)
	var at []int
	if n <= limit {
		for i := 0; i < n; i++ {
			at = append(at, i)
		}
		return at
	}
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] && len(at) < limit {
			seen[i] = true
			at = append(at, i)
		}
	}
	add(0)
	add(n - 1)
	for i, l := range text {
		if !strings.Contains(l, "=") {
			add(i)
			add(i + 1)
			add(i - 1)
		}
	}
	for i := 0; i < n; i += 1 + n/limit {
		add(i)
	}
	return at
}

// busyWriter allocates and releases space at every write.
type busyWriter struct {
	lineWriter
	fs    *fsm.FileStorage
	mode  int
	addrs []int64
}

func (w *busyWriter) Write(b []byte) (int, error) {
	n := len(w.lines)
	a, buf := w.fs.AllocateSpace([]int{20, 9000, 300}[n%3])
	for i := range buf {
		buf[i] = 0xFB
	}
	w.addrs = append(w.addrs, a)
	if w.mode == 1 && n%2 == 1 || len(w.addrs) > 200 {
		w.fs.FreeSpace(w.addrs[0])
		w.addrs = w.addrs[1:]
	}
	return w.lineWriter.Write(b)
}

func (w *busyWriter) end() string {
	for _, a := range w.addrs {
		for _, c := range w.fs.AccessSpace(a)[:20] {
			if c != 0xFB {
				return "space which the writer allocated is changed by the dump"
			}
		}
		w.fs.FreeSpace(a)
	}
	return ""
}

type lineWriter struct {
	lines   []string
	panicAt int
}

func (w *lineWriter) Write(b []byte) (int, error) {
	if len(w.lines)+1 == w.panicAt {
		panic("the writer panics")
	}
	w.lines = append(w.lines, string(b))
	return len(b), nil
}

// dumpBad checks the dumps of the tree stored in the closed file.
func (s *Subj) dumpBad(limit int) (bad string) {
	if m := s.close(); m != "" {
		return m
	}
	s.env.budget(1 << 40)
	m := guard(func() {
		fs := new(fsm.FileStorage).Init()
		if err := fs.Open(s.env.Name, false); err != nil {
			bad = "cannot open the file: " + err.Error()
			return
		}
		defer fs.Close()
		tree := new(bptree.BPTree).Init(fs)
		tree.Load(fs.PrimarySpace())
		bad = dumpsBad(fs, tree, s, limit)
		fs.SetPrimarySpace(tree.Store())
	})
	if m != "" {
		bad = "dumping panics: " + m
	}
	return
}

func dumpsBad(fs *fsm.FileStorage, tree *bptree.BPTree, s *Subj, limit int) string {
	var lw lineWriter
	if err := tree.Fprint(&lw); err != nil {
		return fmt.Sprintf("the dump reports %q, although the writer does not fail", err)
	}
	text := strings.Join(lw.lines, "")
	rs, bad := dumpedRecords(text)
	if bad != "" {
		return bad
	}
	if m := s.same(rs); m != "" {
		return "the dump: " + m
	}
	for n, at := range failPoints(lw.lines, limit) {
		for mode := 0; mode < 6; mode++ {
			if mode != 0 && mode != 3 && at%3 != mode%3 {
				continue
			}
			aw := ableWriter{failingWriter{at: at, mode: mode % 4, err: writerErrors[(n+at+mode)%len(writerErrors)]}}
			w := &aw.failingWriter
			var err error
			if mode < 4 {
				err = tree.Fprint(w)
			} else {
				err = tree.Fprint(&aw)
				if !w.failed && aw.text.String() == text && err == nil {
					continue // fewer writes this way
				}
			}
			tick()
			switch {
			case err == nil:
				return fmt.Sprintf("the dump reports no error, although write %d of %d fails", at, len(lw.lines))
			case !errors.Is(err, w.err):
				return fmt.Sprintf("the dump reports %q, not %q, the error of the writer, when write %d of %d fails", err, w.err, at, len(lw.lines))
			case w.after > 0:
				return fmt.Sprintf("the dump goes on writing (%d more) after write %d of %d failed", w.after, at, len(lw.lines))
			case !strings.HasPrefix(text, w.text.String()):
				return fmt.Sprintf("the dump is different when write %d of %d fails", at, len(lw.lines))
			}
		}
	}
	// a writer which panics
	for _, at := range []int{0, len(lw.lines) / 2} {
		w := lineWriter{panicAt: at + 1}
		guard(func() { tree.Fprint(&w) })
	}
	// a writer which works on other contents of the same storage
	for mode := 0; mode < 2; mode++ {
		w := busyWriter{fs: fs, mode: mode}
		err := tree.Fprint(&w)
		bad := w.end()
		tick()
		if err != nil || strings.Join(w.lines, "") != text {
			return "the dump is different when the writer allocates and releases space of the same storage"
		}
		if bad != "" {
			return bad
		}
	}
	var again lineWriter
	if err := tree.Fprint(&again); err != nil || strings.Join(again.lines, "") != text {
		return "dumping again gives a different dump"
	}
	return ""
}

func monDump(limit int) *Mon {
	return &Mon{final: func(s *Subj, p *Path) string {
		bad := s.dumpBad(limit)
		if m := s.open(false); m != "" && bad == "" {
			bad = m
		}
		return bad
	}}
}

// dumpTasks adds trees which were never stored.
func dumpTasks(tier string) []Task {
	run := func(t *T) {
		for n := 0; n <= 60; n++ {
			for pat := 0; pat < 5; pat++ {
				if t.expired() {
					return
				}
				tick()
				s := &Subj{ord: true, vals: map[string]string{}, env: newEnv(envs[n%4])}
				s.env.budget(1 << 40)
				bad := ""
				m := guard(func() {
					fs := new(fsm.FileStorage).Init()
					if err := fs.Open(s.env.Name, true); err != nil {
						panic(err)
					}
					defer fs.Close()
					tree := new(bptree.BPTree).Init(fs)
					tree.Create()
					for i := 0; i < n; i++ {
						r := sweepRec(true, pat, i)
						if i%5 == 3 { // everything that needs quoting
							r.Key = mixBytes(i*7+n, 3+i%260)
							r.Val = []byte(fmt.Sprintf("\"=\"\n│ %d\x00\xff", i))
						}
						tree.AddOrUpdateRecord(r.Key, r.Val, false)
						s.put(string(r.Key), string(r.Val))
					}
					bad = dumpsBad(fs, tree, s, 200)
				})
				if m != "" {
					bad = "panics: " + m
				}
				s.env.drop()
				t.States++
				t.Transitions += int64(n)
				if !isSim {
					t.Traces++
				}
				if bad != "" {
					t.fail(nil, "%s (tree of %d records, sizes %d, never stored)", bad, n, pat)
					return
				}
			}
		}
		t.sample("a tree of 60 records of 5 kinds of sizes, dumped without having been stored, a writer failing at every write")
	}
	again := func(t *T) {
		for pat := 0; pat < 5; pat++ {
			for gap := 1; gap <= 3; gap++ {
				if t.expired() {
					return
				}
				tick()
				s := &Subj{ord: true, vals: map[string]string{}, env: newEnv(envs[(pat+gap)%4])}
				s.env.budget(1 << 40)
				bad := ""
				at := 0
				m := guard(func() {
					fs := new(fsm.FileStorage).Init()
					if err := fs.Open(s.env.Name, true); err != nil {
						panic(err)
					}
					defer fs.Close()
					tree := new(bptree.BPTree).Init(fs)
					tree.Create()
					// growing, changing and shrinking, dumped in between
					for at = 0; at < 150; at++ {
						r := sweepRec(true, pat, at*37%50)
						switch {
						case at >= 100:
							tree.DeleteRecord(r.Key, false)
							s.del(string(r.Key))
						default:
							if at >= 50 { // an other value of the same length, or a longer one
								r.Val = fillBytes(byte('A'+at%20), len(r.Val)+at%2*(at%9))
							}
							tree.AddOrUpdateRecord(r.Key, r.Val, false)
							s.put(string(r.Key), string(r.Val))
						}
						t.Transitions++
						if at%gap == 0 {
							if bad = dumpsBad(fs, tree, s, 2); bad != "" {
								return
							}
						}
					}
				})
				if m != "" {
					bad = "panics: " + m
				}
				s.env.drop()
				t.States++
				if !isSim {
					t.Traces++
				}
				if bad != "" {
					t.fail(nil, "%s (a tree dumped again after operation %d, sizes %d)", bad, at, pat)
					return
				}
			}
		}
		t.sample("50 records of 5 kinds of sizes added, changed and deleted, dumped after every operation, every second and every third")
	}
	return []Task{
		{Name: "again", Bound: "50 records of 5 kinds of sizes added, changed and deleted, dumped after every operation, every second and every third", Run: again},
		{Name: "real/again", Real: true, Bound: "the same on the real storage", Run: again},
		{Name: "unstored", Bound: "trees of 0 to 60 records of 5 kinds of sizes, never stored, a writer failing at every write", Run: run},
		{Name: "real/unstored", Real: true, Bound: "the same on the real storage", Run: run},
	}
}

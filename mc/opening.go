package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/roy2220/plainkv"
)

// ---- C18: opening

// fileDict opens a dictionary of either kind on a real file.
type fileDict struct {
	od *plainkv.OrderedDict
	dd *plainkv.Dict
}

func openFile(ord bool, name string, create bool) (f *fileDict, err error, bad string) {
	m := guard(func() {
		if ord {
			var od *plainkv.OrderedDict
			od, err = plainkv.OpenOrderedDict(name, create)
			if err != nil && od != nil {
				bad = "an error and a dictionary are returned"
			}
			if err == nil && od == nil {
				bad = "neither an error nor a dictionary is returned"
			}
			f = &fileDict{od: od}
			return
		}
		var dd *plainkv.Dict
		dd, err = plainkv.OpenDict(name, create)
		if err != nil && dd != nil {
			bad = "an error and a dictionary are returned"
		}
		if err == nil && dd == nil {
			bad = "neither an error nor a dictionary is returned"
		}
		f = &fileDict{dd: dd}
	})
	if m != "" {
		bad = "opening panics: " + m
	}
	return
}

func (f *fileDict) set(k, v string) {
	if f.od != nil {
		f.od.Set([]byte(k), []byte(v), false)
	} else {
		f.dd.Set([]byte(k), []byte(v), false)
	}
}

func (f *fileDict) clear(k string) {
	if f.od != nil {
		f.od.Clear([]byte(k), false)
	} else {
		f.dd.Clear([]byte(k), false)
	}
}

func (f *fileDict) close() error {
	if f.od != nil {
		return f.od.Close()
	}
	return f.dd.Close()
}

func (f *fileDict) contents() map[string]string {
	m := map[string]string{}
	if f.od != nil {
		for it := f.od.RangeAsc(plainkv.MinKey, plainkv.MaxKey); !it.IsAtEnd(); it.Advance() {
			k, v, err := it.ReadRecordAll()
			if err != nil {
				panic(err)
			}
			m[string(k)] = string(v)
		}
		if n := f.od.Stats().NumberOfBPTreeRecords; n != len(m) {
			m["?"] = fmt.Sprintf("%d records reported", n)
		}
		return m
	}
	var c plainkv.DictCursor
	for {
		k, v, ok := f.dd.Scan(&c)
		if !ok {
			break
		}
		m[string(k)] = string(v)
		if len(m) > 10000 {
			break
		}
	}
	if n := f.dd.Stats().NumberOfHashItems; n != len(m) {
		m["?"] = fmt.Sprintf("%d items reported", n)
	}
	return m
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// listing returns names and contents of everything in a directory.
func listing(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		switch {
		case st.IsDir():
			m[p] = "directory"
		case st.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[p] = "link to " + l
		default:
			b, _ := ioutil.ReadFile(p)
			m[p] = "file " + string(b)
		}
		return nil
	})
	return m
}

func diffListing(a, b map[string]string) string {
	for p, x := range a {
		y, ok := b[p]
		if !ok {
			return filepath.Base(p) + " is gone"
		}
		if x != y {
			return fmt.Sprintf("%s is changed (%d bytes, then %d)", filepath.Base(p), len(x), len(y))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return filepath.Base(p) + " is created"
		}
	}
	return ""
}

func fillDict(f *fileDict, n int) map[string]string {
	m := map[string]string{}
	for i := 0; i < n; i++ {
		k, v := fmt.Sprintf("key%d", i), string(mixBytes(i, 10+i%200))
		if i%5 == 1 {
			k += string(mixBytes(5, 300))
		}
		f.set(k, v)
		m[k] = v
	}
	return m
}

// expectRefused checks that a name is refused whichever way the flag is set.
func expectRefused(dir, name, what string, flags ...bool) string {
	for _, ord := range []bool{true, false} {
		for _, create := range flags {
			before := listing(dir)
			f, err, bad := openFile(ord, name, create)
			if bad != "" {
				return fmt.Sprintf("%s (ordered: %v, create: %v): %s", what, ord, create, bad)
			}
			if err == nil {
				guard(func() { f.close() })
				return fmt.Sprintf("%s (ordered: %v, create: %v) is opened", what, ord, create)
			}
			if d := diffListing(before, listing(dir)); d != "" {
				return fmt.Sprintf("%s (ordered: %v, create: %v) is refused, but %s", what, ord, create, d)
			}
		}
	}
	return ""
}

// expectContents checks that a name opens with the contents, twice.
func expectContents(ord bool, name, what string, want map[string]string) string {
	for i, create := range []bool{true, false, true} {
		f, err, bad := openFile(ord, name, create)
		if bad != "" || err != nil {
			return fmt.Sprintf("%s (ordered: %v, create: %v): %s %v", what, ord, create, bad, err)
		}
		var got map[string]string
		if m := guard(func() { got = f.contents() }); m != "" {
			return fmt.Sprintf("%s (ordered: %v, create: %v): reading panics: %s", what, ord, create, m)
		}
		if !sameMap(got, want) {
			return fmt.Sprintf("%s (ordered: %v, create: %v): %d records found, not %d", what, ord, create, len(got), len(want))
		}
		var err2 error
		if m := guard(func() { err2 = f.close() }); m != "" || err2 != nil {
			return fmt.Sprintf("%s (ordered: %v, create: %v), opening %d: closing: %s %v", what, ord, create, i, m, err2)
		}
	}
	return ""
}

func scratch() string {
	d := newScratchDir()
	return d
}

// openTargets tries every kind of thing a name may denote.
func openTargets(t *T) {
	try := func(what string, f func(dir string) string) {
		if t.failed() || t.expired() {
			return
		}
		tick()
		dir := scratch()
		defer os.RemoveAll(dir)
		t.States++
		t.Transitions += 4
		t.Traces += 4
		if bad := f(dir); bad != "" {
			t.fail(nil, "%s", bad)
		}
		t.sample("%s", what)
	}
	both := []bool{false, true}
	try("a missing file", func(dir string) string {
		n := filepath.Join(dir, "x")
		if m := expectRefused(dir, n, "a missing file", false); m != "" {
			return m
		}
		for _, ord := range []bool{true, false} {
			n := fmt.Sprintf("%s-%v", n, ord)
			f, err, bad := openFile(ord, n, true)
			if bad != "" || err != nil {
				return fmt.Sprintf("a missing file (ordered: %v) is not created: %s %v", ord, bad, err)
			}
			if len(f.contents()) != 0 {
				return "a created dictionary is not empty"
			}
			if err := f.close(); err != nil {
				return err.Error()
			}
			if m := expectContents(ord, n, "a created file", nil); m != "" {
				return m
			}
		}
		return ""
	})
	try("missing directories", func(dir string) string {
		return expectRefused(dir, filepath.Join(dir, "no", "x"), "a file in a missing directory", both...)
	})
	try("directories", func(dir string) string {
		os.Mkdir(filepath.Join(dir, "d"), 0777)
		return expectRefused(dir, filepath.Join(dir, "d"), "a directory", both...)
	})
	try("odd names", func(dir string) string {
		ioutil.WriteFile(filepath.Join(dir, "f"), []byte("x"), 0666)
		for _, n := range []string{filepath.Join(dir, "f", "x"), filepath.Join(dir, strings.Repeat("n", 300)), "", dir + "/"} {
			if m := expectRefused(dir, n, "the name ..."+filepath.Base(n), both...); m != "" {
				return m
			}
		}
		os.Symlink(filepath.Join(dir, "nothing"), filepath.Join(dir, "l"))
		if m := expectRefused(dir, filepath.Join(dir, "l"), "a link to nothing", false); m != "" {
			return m
		}
		os.Symlink("self", filepath.Join(dir, "self"))
		return expectRefused(dir, filepath.Join(dir, "self"), "a link to itself", both...)
	})
	for _, ord := range []bool{true, false} {
		ord := ord
		try("valid names", func(dir string) string { return validNames(ord, dir) })
		try("without permission", func(dir string) string { return withoutPermission(ord, dir) })
	}
	for _, size := range []int{0, 1, 3, 4, 5, 6, 7, 8, 64, 100, 127, 128, 256, 512, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 100000} {
		size := size
		for kind := 0; kind < 4; kind++ {
			kind := kind
			try(fmt.Sprintf("a foreign file of %d bytes", size), func(dir string) string {
				b := mixBytes(kind, size)
				switch kind {
				case 1:
					b = bytes.Repeat([]byte("text "), size)[:size]
				case 2:
					b = make([]byte, size)
				case 3:
					b = bytes.Repeat([]byte{0xff}, size)
				}
				n := filepath.Join(dir, "f")
				if err := ioutil.WriteFile(n, b, 0666); err != nil {
					return ""
				}
				return expectRefused(dir, n, fmt.Sprintf("a foreign file of %d bytes (kind %d)", size, kind), both...)
			})
		}
	}
	for _, ord := range []bool{true, false} {
		ord := ord
		for _, n := range []int{0, 1, 10, 300} {
			n := n
			try("a dictionary", func(dir string) string {
				name := filepath.Join(dir, "d")
				f, err, bad := openFile(ord, name, true)
				if bad != "" || err != nil {
					return fmt.Sprintf("not created: %s %v", bad, err)
				}
				want := fillDict(f, n)
				if err := f.close(); err != nil {
					return err.Error()
				}
				if m := expectContents(ord, name, "an existing dictionary", want); m != "" {
					return m
				}
				// by another name, by a link, by a relative name
				moved := filepath.Join(dir, "moved")
				if err := os.Rename(name, moved); err != nil {
					return ""
				}
				if m := expectRefused(dir, name, "a file moved away", false); m != "" {
					return m
				}
				if m := expectContents(ord, moved, "a moved dictionary", want); m != "" {
					return m
				}
				os.Symlink(moved, name)
				if m := expectContents(ord, name, "a linked dictionary", want); m != "" {
					return m
				}
				os.Remove(name)
				copyFile(moved, name)
				os.Remove(moved)
				if m := expectContents(ord, name, "a copied dictionary", want); m != "" {
					return m
				}
				// damaged so that it is no storage file any more
				b, _ := ioutil.ReadFile(name)
				for _, cut := range []int{0, 1, 4, 5, 6, 16, 64} {
					if cut < len(b) {
						c := filepath.Join(dir, "cut")
						ioutil.WriteFile(c, b[:cut], 0666)
						if m := expectRefused(dir, c, fmt.Sprintf("the first %d bytes of a dictionary", cut), both...); m != "" {
							return m
						}
					}
				}
				for i := 0; i < 4; i++ {
					d := append([]byte(nil), b...)
					d[i] ^= 0x55
					c := filepath.Join(dir, "sig")
					ioutil.WriteFile(c, d, 0666)
					if m := expectRefused(dir, c, "a dictionary with another signature", both...); m != "" {
						return m
					}
				}
				return expectContents(ord, name, "a copied dictionary", want)
			})
		}
	}
}

// validNames creates and finds dictionaries under unusual names, and nothing else.
func validNames(ord bool, dir string) string {
	wd, err := os.Getwd()
	if err != nil {
		return ""
	}
	defer os.Chdir(wd)
	if os.Chdir(dir) != nil {
		return ""
	}
	os.Mkdir("sub", 0777)
	os.Mkdir("other", 0777)
	os.MkdirAll("sub/deep", 0777)
	os.Symlink("sub", "way")
	os.Symlink("sub/deep", "far")
	// the name given, and the file meant
	for i, n := range [][2]string{{"plain", "plain"}, {" blank ", " blank "}, {"a\nb\tc", "a\nb\tc"}, {"\xc3\xa4\xe2\x82\xac", "\xc3\xa4\xe2\x82\xac"}, {"\xff\xfe", "\xff\xfe"},
		{"-rf", "-rf"}, {"~", "~"}, {"$HOME", "$HOME"}, {"%41%s%d", "%41%s%d"}, {"*?[a]", "*?[a]"}, {"UPPER", "UPPER"}, {"upper", "upper"}, {"x.db", "x.db"}, {"x.DB.tmp", "x.DB.tmp"}, {"x", "x"},
		{".hidden", ".hidden"}, {"...", "..."}, {"back\\slash", "back\\slash"}, {"C:x", "C:x"}, {"file:x", "file:x"}, {"a'b\"c", "a'b\"c"}, {strings.Repeat("l", 255), strings.Repeat("l", 255)},
		{"./dot", "dot"}, {"sub//twice", "sub/twice"}, {"sub/../up", "up"}, {"way/linked", "sub/linked"}, {"far/../back", "sub/back"}, {dir + "/absolute", "absolute"}, {dir + "/./sub/../sub/winding", "sub/winding"},
		{":memory:", ":memory:"}, {"sub/.", ""}, {"nil", "nil"}, {"0", "0"}} {
		if n[1] == "" {
			continue
		}
		before := listing(dir)
		f, err, bad := openFile(ord, n[0], true)
		if bad != "" || err != nil {
			return fmt.Sprintf("the name %q is not created: %s %v", n[0], bad, err)
		}
		want := fillDict(f, 3+i)
		if i%2 == 1 {
			os.Chdir("other") // a relative name is used at opening only
		}
		err = f.close()
		os.Chdir(dir)
		if err != nil {
			return fmt.Sprintf("the name %q is not closed: %v", n[0], err)
		}
		meant := filepath.Join(dir, n[1])
		before[meant] = ""
		after := listing(dir)
		if _, ok := after[meant]; ok {
			after[meant] = ""
		}
		if d := diffListing(before, after); d != "" {
			return fmt.Sprintf("with a dictionary made under the name %q, %s", n[0], d)
		}
		for _, m := range []string{n[0], meant} {
			if bad := expectContents(ord, m, fmt.Sprintf("the name %q", m), want); bad != "" {
				return bad
			}
		}
	}
	return ""
}

// withoutPermission opens files on behalf of somebody who may not.
func withoutPermission(ord bool, dir string) (bad string) {
	if os.Geteuid() != 0 || os.Chmod(dir, 0777) != nil || os.Chmod(filepath.Dir(dir), 0755) != nil {
		return ""
	}
	name := filepath.Join(dir, "d")
	f, err, bad := openFile(ord, name, true)
	if bad != "" || err != nil {
		return bad
	}
	want := fillDict(f, 20)
	if err := f.close(); err != nil {
		return err.Error()
	}
	os.Mkdir(filepath.Join(dir, "closed"), 0755)
	done := make(chan bool)
	go func() {
		defer close(done)
		runtime.LockOSThread() // and ends with it
		if syscall.Setfsuid(65534) != nil {
			return
		}
		if g, err := os.Create(filepath.Join(dir, "closed", "probe")); err == nil {
			g.Close() // may all the same
			os.Remove(filepath.Join(dir, "closed", "probe"))
			return
		}
		for _, mode := range []os.FileMode{0, 0400, 0444, 0200, 0222} {
			syscall.Setfsuid(0)
			os.Chmod(name, mode)
			before := listing(dir)
			syscall.Setfsuid(65534)
			for _, create := range []bool{true, false} {
				f, err, m := openFile(ord, name, create)
				if m == "" && err == nil && mode&0222 == 0 {
					guard(func() { f.close() })
					m = "is opened"
				} else if err == nil && m == "" {
					// a file which may be written only: as the storage decides
					guard(func() { f.close() })
					continue
				}
				if m == "" {
					syscall.Setfsuid(0)
					m = diffListing(before, listing(dir))
					syscall.Setfsuid(65534)
				}
				if m != "" {
					bad = fmt.Sprintf("a file of mode %o (ordered: %v, create: %v): %s", mode, ord, create, m)
					return
				}
			}
		}
		for _, create := range []bool{true, false} {
			n := filepath.Join(dir, "closed", "x")
			f, err, m := openFile(ord, n, create)
			if m == "" && err == nil {
				guard(func() { f.close() })
				m = "is opened"
			}
			if _, e := os.Lstat(n); e == nil && m == "" {
				m = "is there"
			}
			if m != "" {
				bad = fmt.Sprintf("a file in a directory which may not be written (ordered: %v, create: %v) %s", ord, create, m)
				return
			}
		}
	}()
	<-done
	os.Chmod(name, 0644)
	if bad == "" {
		bad = expectContents(ord, name, "after attempts without permission, the dictionary", want)
	}
	return
}

// openSequences tries all sequences of opening, moving, copying and removing.
func openSequences(t *T, ord bool, depth, sh, shards int) {
	names := []string{"A", "B"}
	type fop struct {
		kind   int // 0 open, 1 rename, 2 copy, 3 remove
		x, y   int
		create bool
	}
	var ops []fop
	for i := range names {
		ops = append(ops, fop{0, i, 0, true}, fop{0, i, 0, false}, fop{1, i, 1 - i, false}, fop{2, i, 1 - i, false}, fop{3, i, 0, false})
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	for y := sh; y < total; y += shards {
		if y/shards%16 == 0 {
			tick()
			if t.expired() {
				return
			}
		}
		dir := scratch()
		files := map[int]map[string]string{}
		var seq []string
		bad := ""
		for i, z := 0, y; i < depth && bad == ""; i, z = i+1, z/len(ops) {
			o := ops[z%len(ops)]
			n, m := filepath.Join(dir, names[o.x]), filepath.Join(dir, names[o.y])
			seq = append(seq, fmt.Sprintf("%s %s (%v)", []string{"open", "rename", "copy", "remove"}[o.kind], names[o.x], o.create))
			have, ok := files[o.x]
			switch o.kind {
			case 0:
				f, err, b := openFile(ord, n, o.create)
				switch {
				case b != "":
					bad = b
				case !ok && !o.create:
					if err == nil {
						bad = "a missing file is opened"
						guard(func() { f.close() })
					} else if _, e := os.Lstat(n); e == nil {
						bad = "a missing file is refused, but created"
					}
				case err != nil:
					bad = "opening fails: " + err.Error()
				default:
					if m := guard(func() {
						got := f.contents()
						if !sameMap(got, have) {
							bad = fmt.Sprintf("%d records found, not %d", len(got), len(have))
						}
						next := map[string]string{}
						for k, v := range have {
							next[k] = v
						}
						k, v := fmt.Sprintf("k%d", i%3), string(mixBytes(y+i, 100+i*30))
						if _, has := next[k]; has && i%2 == 1 {
							f.clear(k)
							delete(next, k)
						} else {
							f.set(k, v)
							next[k] = v
						}
						if err := f.close(); err != nil {
							bad = "closing fails: " + err.Error()
						}
						files[o.x] = next
					}); m != "" {
						bad = m
					}
				}
			case 1:
				if ok {
					os.Rename(n, m)
					files[o.y] = have
					delete(files, o.x)
				}
			case 2:
				if ok {
					copyFile(n, m)
					files[o.y] = have
				}
			case 3:
				os.Remove(n)
				delete(files, o.x)
			}
			t.Transitions++
		}
		for i, name := range names {
			if bad == "" {
				if want, ok := files[i]; ok {
					bad = expectContents(ord, filepath.Join(dir, name), "at the end, "+name, want)
				}
			}
		}
		os.RemoveAll(dir)
		t.States++
		t.Traces++
		if bad != "" {
			t.fail(nil, "%v (ordered: %v): %s", seq, ord, bad)
			return
		}
		if y == sh {
			t.sample("%v", seq)
		}
	}
}

func openTasks(tier string) []Task {
	th := tier == "thorough"
	ts := []Task{{Name: "real/targets", Real: true, Bound: "every kind of thing a name may denote, both flags, both kinds of dictionary", Run: openTargets}}
	depth := 4
	if th {
		depth = 5
	}
	for _, ord := range []bool{true, false} {
		ord := ord
		for sh := 0; sh < 3; sh++ {
			sh := sh
			ts = append(ts, Task{Name: fmt.Sprintf("real/sequences/%v/%d", ord, sh), Real: true,
				Bound: fmt.Sprintf("all sequences of %d openings (with and without the flag, each changing a record), renamings, copies and removals of two names", depth),
				Run:   func(t *T) { openSequences(t, ord, depth, sh, 3) }})
		}
	}
	return ts
}

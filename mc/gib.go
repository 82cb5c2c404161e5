package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"

	"github.com/roy2220/plainkv"
)

// Contents of more than 2^31 bytes, items of more than 2^28.

type gibCase struct {
	Kind string `json:"gib"`
}

// gibValue is a value of n bytes which is recognised by its ends and middle.
func gibValue(n int, c byte) []byte {
	v := make([]byte, n)
	for i := 0; i < 40 && i < n; i++ {
		v[i], v[n-1-i], v[n/2+i/2] = c+byte(i), c+100+byte(i), c+200
	}
	return v
}

func sameGib(v []byte, n int, c byte) bool {
	if len(v) != n {
		return false
	}
	for i := 0; i < 40 && i < n; i++ {
		if v[i] != c+byte(i) || v[n-1-i] != c+100+byte(i) || v[n/2+i/2] != c+200 {
			return false
		}
	}
	return true
}

func gibRun(kind string) (bad string) {
	defer debug.SetGCPercent(debug.SetGCPercent(10))
	e := newEnv(envB)
	defer e.drop()
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("%s: panic: %v", kind, r)
		}
	}()
	check := func(what string, records, payload int, st kvStats) string {
		if st.n != records || st.payload != payload {
			return fmt.Sprintf("%s: %d records and %d bytes reported, %d and %d expected", what, st.n, st.payload, records, payload)
		}
		return ""
	}
	type dict interface {
		Set(k, v []byte, ret bool) []byte
		SetIfExists(k, v []byte, ret bool) ([]byte, bool)
		Clear(k []byte, ret bool) ([]byte, bool)
		Test(k []byte, ret bool) ([]byte, bool)
		Close() error
	}
	ord := kind != "hash" && kind != "hash item"
	var d dict
	var stats func() kvStats
	open := func() string {
		if ord {
			od, err := plainkv.OpenOrderedDict(e.Name, true)
			if err != nil {
				return err.Error()
			}
			d = od
			stats = func() kvStats { s := od.Stats(); return kvStats{s.NumberOfBPTreeRecords, s.PayloadSize} }
		} else {
			hd, err := plainkv.OpenDict(e.Name, true)
			if err != nil {
				return err.Error()
			}
			d = hd
			stats = func() kvStats { s := hd.Stats(); return kvStats{s.NumberOfHashItems, s.PayloadSize} }
		}
		return ""
	}
	reopen := func() string {
		if err := d.Close(); err != nil {
			return err.Error()
		}
		return open()
	}
	if bad := open(); bad != "" {
		return bad
	}
	tick()
	if kind == "hash item" || kind == "ordered item" {
		// a key and a value of which each takes more than 2^28 bytes
		n := 1<<28 + 300
		k, v := gibValue(n, 3), gibValue(n-9, 7)
		d.Set([]byte("a"), []byte("1"), false)
		d.Set(k, v[:n-19], false)
		tick()
		if got := d.Set(k, v, true); len(got) != n-19 {
			return fmt.Sprintf("replacing a value of %d bytes returns %d bytes", n-19, len(got))
		}
		tick()
		d.Set([]byte("b"), []byte("2"), false)
		if bad := reopen(); bad != "" {
			return bad
		}
		if bad := check("reopen", 3, 4+n+n-9, stats()); bad != "" {
			return bad
		}
		if got, ok := d.Test(k, true); !ok || !sameGib(got, n-9, 7) && string(got) != string(v) {
			return fmt.Sprintf("the value of %d bytes is read as %d bytes, or differs", n-9, len(got))
		}
		tick()
		k[n/2+300]++
		if _, ok := d.Test(k, false); ok {
			return "a key which differs from the one present by a single byte is found"
		}
		k[n/2+300]--
		for i, a := range []string{"a", "b"} {
			if got, ok := d.Test([]byte(a), true); !ok || string(got) != fmt.Sprint(i+1) {
				return fmt.Sprintf("neighbour %s has value %q, %v", a, got, ok)
			}
		}
		tick()
		if got, ok := d.Clear(k, true); !ok || string(got) != string(v) {
			return "clearing the long item does not return its value"
		}
		if bad := reopen(); bad != "" {
			return bad
		}
		return check("clear", 2, 4, stats())
	}
	if kind == "ordered value" {
		// one value of more than 2^31 bytes
		n := 1<<31 + 5
		v := gibValue(n, 7)
		k := []byte("k")
		d.Set(k, v, false)
		tick()
		if bad := check("set", 1, n+1, stats()); bad != "" {
			return bad
		}
		if bad := reopen(); bad != "" {
			return bad
		}
		od := d.(*plainkv.OrderedDict)
		it := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
		if m, err := it.GetValueSize(); m != n || err != nil {
			return fmt.Sprintf("value of %d bytes has the size %d, %v", n, m, err)
		}
		for _, off := range []int{0, 100, 1 << 30, n/2 - 3, 1<<31 - 50, 1<<31 - 20, 1 << 31, n - 1, n, n + 1} {
			b := make([]byte, 30)
			want := n - off
			if want > len(b) {
				want = len(b)
			}
			if want < 0 {
				want = 0
			}
			m, err := it.ReadValue(off, b)
			if m != want || err != nil || string(b[:m]) != string(v[minInt(off, n):minInt(off, n)+want]) {
				return fmt.Sprintf("reading %d bytes at %d of a value of %d gives %d, %v", len(b), off, n, m, err)
			}
		}
		if _, ok := d.Test(k, false); !ok {
			return "the key is absent"
		}
		if _, ok := d.SetIfExists(k, []byte("short"), false); !ok {
			return "the key cannot be replaced"
		}
		return check("replace", 1, 6, stats())
	}
	// several values which have more than 2^31 bytes together
	n := 580 << 20
	v := gibValue(n, 1)
	for i := 0; i < 4; i++ {
		d.Set([]byte{'a' + byte(i)}, v, false)
		tick()
		if bad := check("set", i+1, (i+1)*(n+1), stats()); bad != "" {
			return bad
		}
	}
	if bad := reopen(); bad != "" {
		return bad
	}
	if bad := check("reopen", 4, 4*(n+1), stats()); bad != "" {
		return bad
	}
	tick()
	for i := 0; i < 4; i++ {
		if got, ok := d.Test([]byte{'a' + byte(i)}, i == 2); !ok || i == 2 && !sameGib(got, n, 1) {
			return fmt.Sprintf("value %d of %d bytes is read as %d bytes, or differs", i, n, len(got))
		}
	}
	if _, ok := d.Clear([]byte("b"), false); !ok {
		return "the second key is absent"
	}
	if bad := check("clear", 3, 3*(n+1), stats()); bad != "" {
		return bad
	}
	tick()
	d.SetIfExists([]byte("a"), []byte("short"), false)
	if bad := check("replace", 3, 2*(n+1)+6, stats()); bad != "" {
		return bad
	}
	d.Clear([]byte("c"), false)
	d.Clear([]byte("d"), false)
	if bad := check("clear", 1, 6, stats()); bad != "" {
		return bad
	}
	if bad := reopen(); bad != "" {
		return bad
	}
	return check("reopen", 1, 6, stats())
}

type kvStats struct{ n, payload int }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func gibTasks(kinds ...string) (ts []Task) {
	for _, k := range kinds {
		k := k
		ts = append(ts, Task{Name: "gib/" + k, Bound: "a fixed history of values of more than 2^31 bytes (together, or a single one), or of a key and a value of more than 2^28: set, reopen, read, replace, clear",
			Run: func(t *T) {
				if bad := gibRun(k); bad != "" {
					t.fail(gibCase{k}, "%s", bad)
				}
				t.States += 12
				t.Transitions += 12
				t.sample("values of more than 2^28 or 2^31 bytes: set, reopened, replaced, cleared")
			},
			Replay: func(raw json.RawMessage) string {
				var c gibCase
				if json.Unmarshal(raw, &c) != nil || c.Kind == "" {
					return ""
				}
				return gibRun(c.Kind)
			}})
	}
	return
}

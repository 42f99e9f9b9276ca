// Package sym is the harness API. Under the symbolic executor these functions
// are intrinsics; compiled natively they replay a recorded witness.
package sym

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"strings"
	"time"
	"unicode/utf8"
)

// ---- native replay state ----

type AssertFail struct{ Msg string }
type AssumeFail struct{}

var (
	inputs  []uint64
	pos     int
	params  map[string]int64
	obs     []string
	Reached = map[string]bool{}
)

// Start prepares a native run.
func Start(in []uint64, ps map[string]int64) {
	inputs, pos, params, obs = in, 0, ps, nil
	Clean()
}

// ---- files ----

var dir string

// Clean removes the scratch directory of the run.
func Clean() {
	if dir != "" {
		os.RemoveAll(dir)
		dir = ""
	}
}

// Dir returns a scratch directory. Under the executor files are kept in a map.
func Dir() string {
	if Native() && dir == "" {
		d, err := os.MkdirTemp("", "zzverif")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	if !Native() {
		return "/scratch"
	}
	return dir
}

// WriteFile writes a file under Dir.
func WriteFile(name string, b []byte) {
	name = path.Join(Dir(), name)
	if Native() {
		os.MkdirAll(path.Dir(name), 0o755)
		if err := os.WriteFile(name, b, 0o644); err != nil {
			panic(err)
		}
		return
	}
	osWriteFile(name, b, 0)
}

// Files returns the names of the files under Dir, sorted by creation or name.
func Files() (names []string) {
	if Native() {
		filepath.WalkDir(Dir(), func(p string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				names = append(names, strings.TrimPrefix(p, Dir()+"/"))
			}
			return nil
		})
		return
	}
	for _, f := range files {
		names = append(names, strings.TrimPrefix(f.name, Dir()+"/"))
	}
	return
}

// ReadFile returns the contents of a file under Dir.
func ReadFile(name string) (string, bool) {
	name = path.Join(Dir(), name)
	if Native() {
		b, err := os.ReadFile(name)
		return string(b), err == nil
	}
	if f := findFile(name); f != nil {
		return string(f.data), true
	}
	return "", false
}

// Observations returns what the run observed.
func Observations() []string { return obs }

func next() uint64 {
	if pos >= len(inputs) {
		pos++
		return 0
	}
	v := inputs[pos]
	pos++
	return v
}

// Light makes DirtyWith do less, where nothing depends on it.
var Light bool

// Dirty fills free heap memory with a recognisable pattern.
func Dirty() { DirtyWith(0xA5) }

// DirtyWith empties the pools and fills free heap memory with c.
func DirtyWith(c byte) {
	var keep [][]byte
	each := 2 << 20
	if Light {
		each = 32 << 10
	}
	for _, n := range []int{16, 32, 64, 128, 512, 1024, 2048, 4096, 8192} {
		for i := 0; i < each/n; i++ {
			b := make([]byte, n)
			for j := range b {
				b[j] = c
			}
			keep = append(keep, b)
		}
	}
	runtime.KeepAlive(keep)
	keep = nil
	runtime.GC()
	runtime.GC()
}

// ---- harness API ----

func Byte() byte  { return byte(next()) }
func U16() uint16 { return uint16(next()) }
func U32() uint32 { return uint32(next()) }
func U64() uint64 { return next() }

func Bool() bool {
	v := next()
	Assume(v <= 1)
	return v == 1
}

// Int returns a value in [lo, hi].
func Int(lo, hi int) int {
	v := next()
	Assume(v <= uint64(hi-lo))
	return lo + int(v)
}

// Choose returns a concrete value in [0, n), one path each.
func Choose(n int) int { return Int(0, n-1) }

// Conc forks over the values of v.
func Conc(v int) int { return v }

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

func String(n int) string { return string(Bytes(n)) }

func Assume(c bool) {
	if !c {
		panic(AssumeFail{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(AssertFail{msg})
	}
}

// Reach marks a program point the exploration must be able to reach.
func Reach(tag string) { Reached[tag] = true }

// Obs records a value compared between symbolic and native execution.
func Obs(tag string, v uint64) { obs = append(obs, fmt.Sprintf("%s=%x", tag, v)) }

func ObsB(tag string, b []byte) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s=%x", tag, len(b))
	for _, c := range b {
		fmt.Fprintf(&sb, ",%x", c)
	}
	obs = append(obs, sb.String())
}

// Param returns a bound chosen by the check's tier.
func Param(name string) int {
	v, ok := params[name]
	if !ok {
		panic("no parameter " + name)
	}
	return int(v)
}

// Native reports whether the harness runs natively (replay).
func Native() bool { return true }

// Allocated is the number of bytes allocated so far.
func Allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

func B2U(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssertFail, AssumeFail:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// ---- helpers executed by the symbolic executor in place of runtime code ----

func runeToString(r rune) string {
	var b [4]byte
	n := utf8.EncodeRune(b[:], r)
	return string(b[:n])
}

func runesToString(rs []rune) string {
	var out []byte
	for _, r := range rs {
		out = utf8.AppendRune(out, r)
	}
	return string(out)
}

func stringToRunes(s string) []rune {
	var out []rune
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		out = append(out, r)
		i += n
	}
	return out
}

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func errorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// The file system the executor shows to the code.

type memFile struct {
	name string
	data []byte
}

func (f *memFile) Name() string       { return path.Base(f.name) }
func (f *memFile) Size() int64        { return int64(len(f.data)) }
func (f *memFile) Mode() os.FileMode  { return 0o644 }
func (f *memFile) ModTime() time.Time { return time.Time{} }
func (f *memFile) IsDir() bool        { return false }
func (f *memFile) Sys() any           { return nil }

type openFile struct {
	h   *os.File
	f   *memFile
	off int
}

var (
	files   []*memFile
	opened  []*openFile
	errFile = errors.New("no such file")
)

func findFile(name string) *memFile {
	for _, f := range files {
		if f.name == name {
			return f
		}
	}
	return nil
}

func osStat(name string) (os.FileInfo, error) {
	if f := findFile(path.Clean(name)); f != nil {
		return f, nil
	}
	return nil, errFile
}

func osOpen(name string) (*os.File, error) {
	f := findFile(path.Clean(name))
	if f == nil {
		return nil, errFile
	}
	o := &openFile{new(os.File), f, 0}
	opened = append(opened, o)
	return o.h, nil
}

func findOpen(h *os.File) *openFile {
	for _, o := range opened {
		if o.h == h {
			return o
		}
	}
	return nil
}

func fileRead(h *os.File, b []byte) (int, error) {
	o := findOpen(h)
	if o.off == len(o.f.data) {
		return 0, io.EOF
	}
	n := copy(b, o.f.data[o.off:])
	o.off += n
	return n, nil
}

func fileStat(h *os.File) (os.FileInfo, error) { return findOpen(h).f, nil }

func fileClose(h *os.File) error { return nil }

func osWriteFile(name string, b []byte, _ os.FileMode) error {
	name = path.Clean(name)
	f := findFile(name)
	if f == nil {
		f = &memFile{name: name}
		files = append(files, f)
	}
	f.data = append([]byte(nil), b...)
	return nil
}

func osReadFile(name string) ([]byte, error) {
	if f := findFile(path.Clean(name)); f != nil {
		return append([]byte(nil), f.data...), nil
	}
	return nil, errFile
}

func osMkdirAll(string, os.FileMode) error { return nil }

var _ = []any{runeToString, runesToString, stringToRunes, decodeRune, errorsIs, osStat, osOpen, fileRead, fileStat, fileClose, osWriteFile, osReadFile, osMkdirAll}

// Package sym is the interface between the harnesses and the symbolic engine. Under the
// engine every function here is replaced; this native implementation takes the values from
// a replay file, so that a solver assignment can be run against the real build.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

var (
	inputs = map[string]uint64{}
	params = map[string]int{}
	counts = map[string]int{}
	quiet  bool
)

// Load reads a replay file and returns the name of the harness and the repetition count.
func Load(path string) (string, int) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
	var rf struct {
		Fn     string            `json:"fn"`
		Params map[string]int    `json:"params"`
		Inputs map[string]uint64 `json:"inputs"`
		Rep    int               `json:"rep"`
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
	inputs, params = rf.Inputs, rf.Params
	if rf.Rep == 0 {
		rf.Rep = 1
	}
	return rf.Fn, rf.Rep
}

// Reset starts another run of the same inputs.
func Reset(again bool) {
	counts = map[string]int{}
	quiet = again
	if dir := os.Getenv("VP_TMP"); again && dir != "" {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			os.RemoveAll(filepath.Join(dir, e.Name()))
		}
	}
}

func get(name string) uint64 {
	k := counts[name]
	counts[name] = k + 1
	return inputs[fmt.Sprintf("%s#%d", name, k)]
}

// Arbitrary values.
func U8(name string) uint8   { return uint8(get(name)) }
func U16(name string) uint16 { return uint16(get(name)) }
func I16(name string) int16  { return int16(get(name)) }
func U32(name string) uint32 { return uint32(get(name)) }
func I32(name string) int32  { return int32(get(name)) }
func U64(name string) uint64 { return get(name) }
func Int(name string) int    { return int(get(name)) }
func Bool(name string) bool  { return get(name)&1 == 1 }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8(name)
	}
	return b
}

// Choose forks over 0..n-1; the result is concrete on each path.
func Choose(name string, n int) int { return int(get(name)) }

// Range is an arbitrary int in [lo, hi], kept symbolic.
func Range(name string, lo, hi int) int { return lo + int(get(name)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("ASSUME false")
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("ASSERT " + msg)
		os.Exit(3)
	}
}

// Reach marks a point some path must get to.
func Reach(label string) {}

// Param is a bound fixed by the case.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// MapOrder selects how maps are iterated from here on: 0 insertion order, 1 reverse
// insertion order, 2 every order.
func MapOrder(mode int) {}

// Symbolic tells whether the engine is running the harness.
func Symbolic() bool { return false }

// And and Or do not fork.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// EqBytes and EqStr compare without forking.
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }

// IteInt is c ? a : b without forking.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Concrete forks over the values of v.
func Concrete(v int) int { return v }

// Observe records bytes for comparison between the engine and the native run.
func Observe(name string, b []byte) {
	if !quiet {
		fmt.Printf("OBS %s=%x\n", name, b)
	}
}

// ObserveInt records a number.
func ObserveInt(name string, v int) {
	if !quiet {
		fmt.Printf("OBS %s=%d\n", name, v)
	}
}

// File returns a data file of the harness directory.
func File(name string) []byte {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VP_DATA"), name))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
	return b
}

// Steps bounds the instructions from here on.
func Steps(n int) {}

// Path names a scratch file; BadPath one that cannot be created or opened.
func Path(name string) string { return filepath.Join(os.Getenv("VP_TMP"), name) }
func BadPath() string         { return filepath.Join(os.Getenv("VP_TMP"), "no-such-dir", "x") }

// Exit runs main as the main function of a process that is given args, in the scratch
// directory, and returns its exit status. The native implementation starts this program
// again; Child tells whether this is such a process and runs main.
func Exit(args []string, main func()) int {
	b, _ := json.Marshal(args)
	cmd := exec.Command(os.Args[0])
	cmd.Dir = os.Getenv("VP_TMP")
	cmd.Env = append(os.Environ(), "VP_CHILD="+string(b))
	err := cmd.Run()
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	}
	fmt.Fprintln(os.Stderr, err)
	os.Exit(5)
	return 0
}

// Main is what Exit runs in the new process.
var Main func()

// Child runs Main when this process was started by Exit.
func Child() {
	s := os.Getenv("VP_CHILD")
	if s == "" {
		return
	}
	var args []string
	json.Unmarshal([]byte(s), &args)
	os.Args = args
	Main()
	os.Exit(0)
}

func PutFile(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
}

// PutDir makes a directory, PutFull a file that can be opened but takes no data.
func PutDir(path string) {
	if err := os.Mkdir(path, 0o755); err != nil && !os.IsExist(err) {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
}
func PutFull(path string) {
	if err := os.Symlink("/dev/full", path); err != nil && !os.IsExist(err) {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
}
func GetFile(path string) ([]byte, bool) {
	if st, err := os.Stat(path); err != nil || !st.Mode().IsRegular() {
		return nil, false
	}
	b, err := os.ReadFile(path)
	return b, err == nil
}

package main

import (
	"bytes"
	"flag"
	"io"
	ros "os"
	"path/filepath"
	"strconv"

	m_csv "github.com/vearutop/flatjsonl/verifsim/cmd/m_cmd_csvequals"
	m_root "github.com/vearutop/flatjsonl/verifsim/cmd/m_root"
	sos "github.com/vearutop/flatjsonl/verifsim/shim/os"
	"github.com/vearutop/flatjsonl/verifsim/shim/sql"
	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// Result is what one simulated execution left behind.
type Result struct {
	Out simrt.Outcome
	FS  *simrt.FS
	DBs map[string]string // Simulated database path to scratch file.

	Prev []simrt.Outcome // Earlier runs on the same files.
}

// File is the content of a simulated file, nil if there is none.
func (r *Result) File(name string) []byte {
	n := r.FS.Files[simrt.Clean(name)]
	if n == nil {
		return nil
	}

	if n.Data == nil {
		return []byte{}
	}

	return n.Data
}

// Exists tells whether a file exists.
func (r *Result) Exists(name string) bool { return r.FS.Files[simrt.Clean(name)] != nil }

var scratchDir string

// scratch makes the directory for databases of this process.
func scratch() string {
	if scratchDir != "" {
		return scratchDir
	}

	base := ros.Getenv("VSIM_SCRATCH")
	if base == "" {
		var err error

		base, err = ros.MkdirTemp("", "vsim")
		if err != nil {
			panic(err)
		}
	}

	scratchDir = filepath.Join(base, "db"+strconv.Itoa(ros.Getpid()))
	if err := ros.MkdirAll(scratchDir, 0o755); err != nil {
		panic(err)
	}

	return scratchDir
}

func cleanScratch() {
	if scratchDir != "" {
		_ = ros.RemoveAll(scratchDir)
	}
}

// staleNames are outputs that may exist before the run.
func (c *Case) staleNames() []string {
	var res []string

	for _, n := range c.O.outNames() {
		res = append(res, n)

		for _, dst := range c.O.Cfg.Transpose {
			res = append(res, transposedName(n, dst))
		}
	}

	return res
}

func (c *Case) staleData() []byte {
	return bytes.Repeat([]byte("stale,\"row\n"), c.Stale/11+1)[:c.Stale]
}

// inputs puts the input files of a run in place.
func (c *Case) inputs(fs *simrt.FS, in []InFile) {
	for i := range in {
		f := &in[i]
		if f.Missing {
			continue
		}

		if f.Dir {
			fs.Files[simrt.Clean(f.Name)] = &simrt.Inode{Dir: true}

			continue
		}

		fs.Files[simrt.Clean(f.Name)] = &simrt.Inode{Data: f.Stored()}
	}
}

// execute runs a case.
func execute(c *Case) *Result {
	fs := simrt.NewFS()

	c.inputs(fs, c.In)

	if c.CfgRaw != nil || c.O.CfgFile && c.O.hasCfg() {
		fs.Files[simrt.Clean(c.cfgName())] = &simrt.Inode{Data: c.cfgText()}
	}

	for i, n := range c.Others {
		if fs.Files[simrt.Clean(n)] == nil {
			fs.Files[simrt.Clean(n)] = &simrt.Inode{Data: otherData(i)}
		}
	}

	if c.Stale > 0 {
		for _, n := range c.staleNames() {
			if fs.Files[simrt.Clean(n)] == nil {
				fs.Files[simrt.Clean(n)] = &simrt.Inode{Data: c.staleData()}
			}
		}
	}

	res := &Result{DBs: map[string]string{}}
	n := 0
	dbf := ros.Getenv("VSIM_DB")

	simrt.SQLPath = func(p string) string {
		if q, ok := res.DBs[p]; ok {
			return q
		}

		q := filepath.Join(scratch(), "db"+strconv.Itoa(n)+dbf)
		n++

		_ = ros.Remove(q)
		_ = ros.Remove(q + "-journal")
		_ = ros.Remove(q + "-wal")
		_ = ros.Remove(q + "-shm")
		res.DBs[p] = q

		return q
	}
	simrt.SQLRemoved = func(p string) {
		if q, ok := res.DBs[p]; ok {
			_ = ros.Remove(q)
		}
	}

	for i := range c.Prev {
		p := &c.Prev[i]

		if len(p.In) > 0 {
			c.inputs(fs, p.In)
		}

		fs.SetFaults(p.P.Faults)

		out := c.runOn(p.P, fs, res)
		res.Prev = append(res.Prev, out)

		if len(p.In) > 0 {
			for j := range p.In {
				delete(fs.Files, simrt.Clean(p.In[j].Name))
			}

			c.inputs(fs, c.In)
		}

		// Only files survive.
		next := simrt.NewFS()
		for n, f := range fs.Files {
			next.Files[n] = &simrt.Inode{Data: f.Data, Dir: f.Dir, DB: f.DB}
		}

		fs = next
	}

	fs.SetFaults(c.P.Faults)

	res.FS = fs
	res.Out = c.runOn(c.P, fs, res)

	return res
}

// runOn executes the program once.
func (c *Case) runOn(p simrt.Params, fs *simrt.FS, res *Result) simrt.Outcome {
	resetAll()

	args := append([]string{"flatjsonl"}, c.Args()...)
	saved := ros.Args
	ros.Args = args
	sos.Args = args

	main := m_root.Main

	if c.Library > 0 {
		main = c.libMain
	}

	if c.Tool == "csvequals" {
		main = m_csv.Main
		args[0] = "csvequals"
	}

	flag.CommandLine = flag.NewFlagSet(args[0], flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	flag.Usage = func() {}

	out := simrt.Run(p, fs, main)

	// The death of a process does not roll back or flush anything.
	kept := map[string][]byte{}

	if len(c.Prev) > 0 && out.End != "exit" {
		for _, q := range res.DBs {
			if b, err := ros.ReadFile(q); err == nil {
				kept[q] = b
			}
		}
	}

	sql.CloseAll()

	for q, b := range kept {
		_ = ros.WriteFile(q, b, 0o600)
	}

	ros.Args = saved

	return out
}

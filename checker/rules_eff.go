package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects: what a function, with everything it can reach, may do to the world
// outside the process.

// effectOf classifies a function outside the module.
func effectOf(f *ssa.Function) string {
	if f.Pkg == nil {
		if f.Object() == nil || f.Object().Pkg() == nil {
			return ""
		}
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else {
		path = f.Object().Pkg().Path()
	}
	name := f.Name()
	recv := ""
	if r := f.Signature.Recv(); r != nil {
		recv = typeString(r.Type())
	}
	switch path {
	case "os":
		switch recv {
		case "":
			switch name {
			case "WriteFile":
				return "ioutil.WriteFile"
			case "CreateTemp":
				return "ioutil.TempFile"
			case "MkdirTemp":
				return "ioutil.TempDir"
			}
			switch name {
			case "Create", "OpenFile", "WriteFile", "CreateTemp", "MkdirTemp", "Mkdir", "MkdirAll", "Remove", "RemoveAll", "Rename", "Symlink", "Link", "Truncate",
				"Chmod", "Chown", "Chtimes", "Lchown", "Chdir", "Setenv", "Unsetenv", "Clearenv", "Exit", "StartProcess", "FindProcess", "CopyFS", "NewFile", "Pipe":
				return "os." + name
			}
		case "*os.File":
			switch name {
			case "Write", "WriteString", "WriteAt", "Truncate", "Chmod", "Chown", "Sync", "ReadFrom":
				return "(*os.File)." + name
			}
		case "*os.Process":
			return "(*os.Process)." + name
		}
	case "io/ioutil":
		switch name {
		case "WriteFile", "TempFile", "TempDir":
			return "ioutil." + name
		}
	case "os/exec":
		switch name {
		case "Command", "CommandContext", "Run", "Start", "Output", "CombinedOutput":
			return "exec." + name
		}
	case "net/http":
		switch name {
		case "Get", "Head", "Post", "PostForm", "Do", "ListenAndServe", "NewRequest", "NewRequestWithContext":
			return "http." + name
		}
	case "net":
		switch name {
		case "Dial", "DialTimeout", "DialContext", "Listen", "DialTCP", "DialUnix":
			return "net." + name
		}
	case "syscall", "golang.org/x/sys/unix":
		switch name {
		case "Getpid", "Getuid":
		default:
			return "syscall." + name
		}
	case "google.golang.org/grpc":
		switch name {
		case "Dial", "DialContext", "NewClient", "Invoke", "NewStream":
			return "grpc." + name
		}
	case "github.com/fullstorydev/grpcurl":
		return "grpcurl." + name
	case "plugin", "os/signal", "debug/elf":
		return path + "." + name
	case "log":
		if strings.HasPrefix(name, "Fatal") {
			return "log." + name
		}
	}
	return ""
}

type effSite struct {
	effect string
	fn     *ssa.Function
	pos    string
}

// refs are the functions a function may call or hand out: every function
// value it mentions, and every method of the module that an interface call
// can reach.
func (c *Ctx) refs(fn *ssa.Function) []*ssa.Function {
	if r, ok := c.refCache[fn]; ok {
		return r
	}
	if c.refCache == nil {
		c.refCache = map[*ssa.Function][]*ssa.Function{}
	}
	set := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok {
					set[f] = true
				}
			}
			if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
				for _, f := range c.implementers(ci.Common().Value.Type(), ci.Common().Method) {
					set[f] = true
				}
			}
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				set[mc.Fn.(*ssa.Function)] = true
			}
		}
	}
	var out []*ssa.Function
	for f := range set {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	c.refCache[fn] = out
	return out
}

// implementers are the methods of module types that an interface method can be.
func (c *Ctx) implementers(t types.Type, m *types.Func) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := typeString(t) + "." + m.Name()
	if r, ok := c.implCache[key]; ok {
		return r
	}
	if c.implCache == nil {
		c.implCache = map[string][]*ssa.Function{}
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range c.p.Funcs {
		r := fn.Signature.Recv()
		if r == nil || fn.Name() != m.Name() || fn.Blocks == nil || seen[fn] {
			continue
		}
		if types.Implements(r.Type(), it) {
			seen[fn] = true
			out = append(out, fn)
			continue
		}
		if _, isPtr := r.Type().(*types.Pointer); !isPtr && types.Implements(types.NewPointer(r.Type()), it) {
			seen[fn] = true
			out = append(out, fn)
		}
	}
	// methods of embedded types
	{
		for _, fn := range c.p.Funcs {
			if fn.Name() == m.Name() && fn.Signature.Recv() != nil && fn.Blocks != nil && !seen[fn] && types.Identical(stripRecv(fn.Signature), stripRecv(m.Type().(*types.Signature))) && inModuleFn(fn) {
				seen[fn] = true
				out = append(out, fn)
			}
		}
	}
	c.implCache[key] = out
	return out
}

func inModuleFn(fn *ssa.Function) bool {
	return fn.Pkg != nil && inModule(fn.Pkg.Pkg)
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// effects are the effects reachable from fn; via tells how the first one found
// of each kind and package is reached.
func (c *Ctx) effects(roots []*ssa.Function, stop map[*ssa.Function]bool) (sites []effSite, via map[*ssa.Function]*ssa.Function) {
	via = map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	for _, r := range roots {
		if r != nil {
			via[r] = nil
			work = append(work, r)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, g := range c.refs(f) {
			if !inModuleFn(g) && g.Parent() == nil {
				if g.Synthetic != "" && g.Blocks != nil && (g.Pkg == nil || inModule(g.Pkg.Pkg)) {
					// wrappers of module methods are looked through
				} else {
					if e := effectOf(g); e != "" {
						sites = append(sites, effSite{effect: e, fn: f})
					}
					continue
				}
			}
			if stop[g] {
				continue
			}
			if _, ok := via[g]; !ok {
				via[g] = f
				work = append(work, g)
			}
		}
	}
	return
}

func chain(via map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var out []string
	for f != nil {
		out = append([]string{shortFn(f)}, out...)
		f = via[f]
	}
	return strings.Join(out, " -> ")
}

func pkgName(fn *ssa.Function) string {
	f := topOf(fn)
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name()
	}
	return "?"
}

// runnerMethods are the operations behind the commands: what implements the
// methods of exec.Runner.
func (c *Ctx) runnerMethods() map[string][]*ssa.Function { return c.interfaceMethods("exec.Runner") }

// interfaceMethods are the implementations of the methods of an interface
// "package.Name".
func (c *Ctx) interfaceMethods(name string) map[string][]*ssa.Function {
	out := map[string][]*ssa.Function{}
	i := strings.LastIndexByte(name, '.')
	sp := c.p.SPkgs[modPath+"/internal/"+name[:i]]
	if sp == nil || sp.Type(name[i+1:]) == nil {
		return out
	}
	t := sp.Type(name[i+1:]).Type()
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return out
	}
	for i := 0; i < it.NumMethods(); i++ {
		out[it.Method(i).Name()] = c.implementers(t, it.Method(i))
	}
	return out
}

// kindOf names an effect by what it does, not by which of the equivalent
// library functions does it.
func kindOf(e string) string {
	switch e {
	case "os.Create", "os.OpenFile", "os.WriteFile", "ioutil.WriteFile", "os.Rename", "os.Truncate", "os.Symlink", "os.Link", "os.CopyFS":
		return "writes files"
	case "(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).ReadFrom", "(*os.File).Sync":
		return "" // of a file opened elsewhere
	case "ioutil.TempFile", "os.CreateTemp", "ioutil.TempDir", "os.MkdirTemp":
		return "makes temporary files"
	case "os.Mkdir", "os.MkdirAll":
		return "makes directories"
	case "os.Remove", "os.RemoveAll":
		return "removes files"
	case "exec.Command", "exec.CommandContext":
		return "" // what is prepared is run by one of the next
	case "exec.Run", "exec.Start", "exec.Output", "exec.CombinedOutput", "os.StartProcess":
		return "runs programs"
	case "(*os.Process).Kill", "(*os.Process).Signal", "os/signal.Notify", "os/signal.Stop", "os/signal.Reset":
		return "handles signals"
	case "grpcurl.BlockingDial", "grpcurl.InvokeRPC", "grpc.Dial", "grpc.DialContext", "grpc.NewClient":
		return "calls servers"
	case "(*os.Process).Release", "(*os.Process).Wait":
		return ""
	}
	switch {
	case strings.HasPrefix(e, "http."), strings.HasPrefix(e, "net."):
		return "uses the network"
	case strings.HasPrefix(e, "grpcurl."), strings.HasSuffix(e, ".init"):
		return ""
	}
	return e
}

var (
	effProtoc = []string{
		"protoc: writes files", "protoc: makes directories", "protoc: uses the network", // the protoc cache, output directories
		"protoc: runs programs", "protoc: handles signals", "protoc: makes temporary files", "protoc: removes files"}
	effDownload = []string{"protoc: writes files", "protoc: makes directories", "protoc: uses the network", "protoc: runs programs"}
	effFormat   = []string{"exec: writes files", // the formatted files
		"diff: makes temporary files", "diff: runs programs", "diff: removes files"}
	effDescriptor = []string{"exec: writes files", "exec: makes temporary files"} // the requested output
)

// allowedEffects are, for each operation, the reviewed effects with the
// package in which they happen.
var allowedEffects = map[string][][]string{
	"All":                     {effProtoc, effFormat},
	"BreakCheck":              {effProtoc, {"git: runs programs", "git: makes temporary files", "git: removes files", "exec: removes files"}},
	"BreakDescriptorSet":      {effProtoc, effDescriptor},
	"CacheDelete":             {{"protoc: removes files"}},
	"CacheUpdate":             {{"protoc: writes files", "protoc: makes directories", "protoc: uses the network", "protoc: runs programs"}},
	"Compile":                 {effProtoc},
	"Create":                  {{"create: writes files"}},
	"DescriptorSet":           {effProtoc, effDescriptor},
	"Files":                   {},
	"Format":                  {effProtoc, effFormat},
	"GRPC":                    {effProtoc, {"grpc: calls servers"}},
	"Gen":                     {effProtoc},
	"Init":                    {{"exec: writes files", "exec: makes directories"}},
	"InspectPackageDeps":      {effProtoc},
	"InspectPackageImporters": {effProtoc},
	"InspectPackages":         {effProtoc},
	"Lint":                    {effProtoc},
	"Version":                 {},
}

// componentInterfaces are the interfaces between the components.
var componentInterfaces = []string{"breaking.Runner", "create.Handler", "file.ProtoSetProvider", "format.Transformer", "grpc.Handler", "lint.Runner", "lint.Linter", "protoc.Compiler", "protoc.Downloader", "settings.ConfigProvider"}

// allowedComponent are the reviewed effects of the methods of the components,
// without those of the components they use.
var allowedComponent = map[string][]string{
	"create.Handler.Create":                       {"create: writes files"},
	"grpc.Handler.Invoke":                         {"grpc: calls servers"},
	"protoc.Compiler.Compile":                     {"protoc: makes directories", "protoc: runs programs", "protoc: handles signals", "protoc: makes temporary files", "protoc: removes files"},
	"protoc.Compiler.ProtocCommands":              {"protoc: makes temporary files", "protoc: removes files"},
	"protoc.Downloader.Download":                  effDownload,
	"protoc.Downloader.ProtocPath":                effDownload,
	"protoc.Downloader.WellKnownTypesIncludePath": effDownload,
	"protoc.Downloader.Delete":                    {"protoc: removes files"},
}

// effectRule compares what every operation may do with what it was reviewed
// to do.
func effectRule(c *Ctx) *RuleResult {
	r := &RuleResult{What: "every function reachable, through static calls, function values and interface calls, from each operation of the runner, and every other function of the module: the files, directories, processes and connections it may touch against the reviewed table"}
	covered := map[*ssa.Function]bool{}
	report := func(op string, sites []effSite, via map[*ssa.Function]*ssa.Function, allowed map[string]bool) {
		seen := map[string]bool{}
		for f := range via {
			covered[f] = true
		}
		for _, s := range sites {
			k := kindOf(s.effect)
			if k == "" {
				continue
			}
			e := pkgName(s.fn) + ": " + k
			if seen[e] {
				continue
			}
			seen[e] = true
			r.Obligations++
			if allowed[e] {
				if len(r.Samples) < 10 {
					r.Samples = append(r.Samples, op+" "+e+": "+chain(via, s.fn)+" -> "+s.effect)
				}
				continue
			}
			r.Findings = append(r.Findings, Finding{Key: op + " " + e, Pos: c.p.pos(s.fn.Pos()), Msg: op + " was reviewed not to do this: package " + e + ": " + chain(via, s.fn) + " -> " + s.effect})
		}
	}
	ms := c.runnerMethods()
	var names []string
	for k := range ms {
		names = append(names, k)
	}
	sort.Strings(names)
	if len(names) == 0 {
		r.Findings = append(r.Findings, Finding{Key: "exec.Runner", Msg: "the operations of exec.Runner were not found"})
	}
	for _, k := range names {
		allowed := map[string]bool{}
		for _, l := range allowedEffects[k] {
			for _, e := range l {
				allowed[e] = true
			}
		}
		sites, via := c.effects(ms[k], nil)
		r.Functions += len(via)
		report(k, sites, via, allowed)
	}
	// the components the operations are made of, each without what the
	// others do
	for _, iface := range componentInterfaces {
		stop := map[*ssa.Function]bool{}
		for _, other := range componentInterfaces {
			if other == iface {
				continue
			}
			for _, ms := range c.interfaceMethods(other) {
				for _, f := range ms {
					stop[f] = true
				}
			}
		}
		methods := c.interfaceMethods(iface)
		var names []string
		for m := range methods {
			names = append(names, m)
		}
		sort.Strings(names)
		for _, m := range names {
			allowed := map[string]bool{}
			for _, e := range allowedComponent[iface+"."+m] {
				allowed[e] = true
			}
			sites, via := c.effects(methods[m], stop)
			r.Functions += len(via)
			r.Obligations++
			report(iface+"."+m, sites, via, allowed)
		}
	}
	// what no operation reaches: initialisation, the command line and the mains
	var rest []effSite
	via := map[*ssa.Function]*ssa.Function{}
	for _, fn := range c.p.Funcs {
		if covered[fn] || !inModuleFn(topOf(fn)) || strings.Contains(topOf(fn).Pkg.Pkg.Path(), "/example/") || strings.Contains(topOf(fn).Pkg.Pkg.Path(), "/internal/testing") {
			continue
		}
		r.Functions++
		for _, g := range c.refs(fn) {
			if e := effectOf(g); e != "" && !inModuleFn(g) {
				rest = append(rest, effSite{effect: e, fn: fn})
			}
		}
	}
	report("outside of the operations", rest, via, map[string]bool{"main: os.Exit": true})
	return r
}

package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var purePrefixes = []string{
	"strings.", "strconv.", "unicode.", "utf8.", "unicode/utf8.", "path/filepath.Join", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext",
	"path/filepath.Rel", "path/filepath.IsAbs", "path/filepath.Clean", "path/filepath.Abs", "path/filepath.FromSlash", "path/filepath.ToSlash", "path/filepath.Split",
	"path.", "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln", "errors.", "bytes.NewBuffer", "bytes.NewReader", "bytes.Equal", "bytes.Compare", "bytes.TrimSpace", "bytes.Split",
	"bytes.Contains", "bytes.HasPrefix", "(error).Error", "regexp.", "(*regexp.Regexp).", "(time.Duration).", "time.Duration", "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes",
	"(*bytes.Buffer).Len", "(text/scanner.Position).", "strs.", "protostrs.", "(*extract.", "extract.", "text.Join", "text.NewFailuref", "(*text.Failure).", "net/url.", "(io/fs.FileInfo).", "(os.FileInfo).",
	"os.IsNotExist", "os.IsExist", "reflect.DeepEqual",
	// reads: where they happen does not matter, what is done with them does
	"os.Stat", "os.Lstat", "os.Getenv", "io/ioutil.ReadFile", "os.ReadFile", "os.Getwd", "path/filepath.EvalSymlinks",
	"(*os.File).Name", "(*github.com/gofrs/flock.Flock).Path", "(io/fs.FileMode).", "(os.FileMode).", "(*archive/zip.FileHeader).",
	"github.com/golang/protobuf/proto.CompactTextString", "github.com/golang/protobuf/proto.EnumName", "github.com/golang/protobuf/proto.Marshal", "github.com/golang/protobuf/proto.Equal",
	"encoding/json.NewDecoder", "encoding/json.Marshal", "crypto/", "(*encoding/base64.", "context.Background", "reflect.ValueOf", "(reflect.Value).",
	"(github.com/emicklei/proto.Literal).SourceRepresentation", "(*github.com/emicklei/proto.Literal).SourceRepresentation", "(github.com/emicklei/proto.Range).SourceRepresentation",
	"(lint.Linter).ID", "(lint.Linter).Purpose", "(*github.com/emicklei/proto.Comment).Message", "github.com/gobuffalo/flect.", "(github.com/gobuffalo/flect.Ident).",
	"archive/zip.NewReader", "bytes.", "os/signal.NewSomething", "(os.Signal).String", "(*google.golang.org/grpc/status.Status).",
	"go.uber.org/multierr.Append", "github.com/gofrs/flock.New", "os/exec.Command", "runtime.", "time.Now",
	"file.IsExcluded", "file.AbsClean", "file.CheckAbs", "file.SortedDirPaths", "settings.IsWithinDir", "(settings.GenPluginType).",
	"settings.ConfigProviderWith", "settings.NewConfigProvider", "(settings.ConfigProvider).", "github.com/emicklei/proto.NewParser", "github.com/emicklei/proto.Filename",
	"(*bytes.Buffer).String",
	"encoding/hex.", "github.com/spf13/cobra.",
}

func defaultPure(name string) bool {
	if strings.Contains(name, "protoc-gen-go/descriptor.") && strings.Contains(name, ").Get") {
		return true
	}
	if strings.HasPrefix(name, "(*reflectv1.") && strings.Contains(name, ").Get") {
		return true
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func defaultIgnore(name string) bool {
	return strings.HasPrefix(name, "(*go.uber.org/zap.") || strings.HasPrefix(name, "go.uber.org/zap.")
}

// defaultKeeps are calls that keep what their arguments point to.
func defaultKeeps(name string) bool {
	for _, p := range []string{"(*github.com/spf13/cobra.Command).", "(*github.com/spf13/pflag.FlagSet).", "(*sync."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return name == "(*cmd.cmdTemplate).Build" || name == "(*github.com/spf13/cobra.Command).AddCommand" || name == "fmt.Fprintln" || name == "fmt.Fprintf" || name == "fmt.Fprint"
}

// following are the functions followed instead of stopped at, see sameFollowing.
var following map[*ssa.Function]bool

func newPolicy(opaque func(*ssa.Function) bool) *Policy {
	if len(following) > 0 {
		inner := opaque
		opaque = func(f *ssa.Function) bool { return !following[f] && inner(f) }
	}
	return &Policy{Opaque: opaque, Pure: defaultPure, Ignore: defaultIgnore, Keeps: defaultKeeps}
}

// fnPure reports whether the function of this repository only computes: it
// stores nothing outside its own variables, calls only what computes, and gives
// numbers, strings, flags or errors.
func (ev *Eval) fnPure(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if r, ok := ev.pureMemo[fn]; ok {
		return r
	}
	if ev.pureMemo == nil {
		ev.pureMemo = map[*ssa.Function]bool{}
	}
	ev.pureMemo[fn] = true // of the calls of itself
	r := ev.fnPure1(fn)
	ev.pureMemo[fn] = r
	return r
}

func (ev *Eval) fnPure1(fn *ssa.Function) bool {
	if fn.Blocks == nil || len(fn.FreeVars) > 0 {
		return false
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if _, ok := t.Underlying().(*types.Basic); !ok && !isErrorType(t) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if !ownVar(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select, *ssa.Panic, *ssa.MakeClosure, *ssa.MakeChan:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW || x.Op == token.MUL && !ev.fixedVar(x.X) {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if n := bi.Name(); n != "len" && n != "cap" {
						return false
					}
					continue
				}
				name := ""
				callee := x.Call.StaticCallee()
				switch {
				case callee != nil:
					name = shortFn(callee)
					if ev.pol.Rename != nil {
						name = ev.pol.Rename(name)
					}
				case x.Call.IsInvoke():
					name = shortName("(" + typeString(x.Call.Value.Type()) + ")." + x.Call.Method.Name())
				default:
					return false
				}
				if ev.pol.Ignore(name) || ev.pol.Pure(name) || name == "errors.New" || name == "fmt.Errorf" {
					continue
				}
				if callee == nil || !ev.fnPure(callee) {
					return false
				}
			}
		}
	}
	return true
}

// fixedVar reports whether what is at the address does not change between two
// calls with the same arguments.
func (ev *Eval) fixedVar(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Global:
		return !ev.isMutated(x)
	case *ssa.FieldAddr:
		return ev.fixedVar(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return true
		}
		return ev.fixedVar(x.X)
	}
	return ownVar(v)
}

// ownVar reports whether the address is in a variable of the function.
func ownVar(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return ownVar(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return ownVar(x.X)
		}
	}
	return false
}

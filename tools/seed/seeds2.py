SEEDS = []

def s(*a):
    SEEDS.append(a)

s('c31-deep-package', 'C31',
  'creating a file four directories below the configuration file',
  'the package of a file in a deep directory keeps slashes',
  [('internal/create/handler.go',
    '	relPkg := strings.Join(strings.Split(rel, string(os.PathSeparator)), ".")\n',
    '	relPkg := strings.Join(strings.SplitN(rel, string(os.PathSeparator), 4), ".")\n')],
  r'''
printf 'lint:\n  group: uber1\n' > prototool.yaml
mkdir -p a/b/c/d/e
"$p" create a/b/c/d/e/x.proto || exit 3
grep -qxF 'package a.b.c.d.e;' a/b/c/d/e/x.proto
''')

s('c01-map-of-floats', 'C01',
  'a float as the value of a map',
  'MESSAGE_FIELDS_NOT_FLOATS no longer reports maps of floats',
  [('internal/lint/check_message_fields_not_floats.go',
    '''func (v *messageFieldsNotFloatsVisitor) VisitMapField(field *proto.MapField) {
	v.checkNotFloat(field.Field)
}
''',
    '''func (v *messageFieldsNotFloatsVisitor) VisitMapField(field *proto.MapField) {
	if field.KeyType == "float" {
		v.checkNotFloat(field.Field)
	}
}
''')],
  r'''
cat > prototool.yaml <<X
lint:
  rules:
    no_default: true
    add:
      - MESSAGE_FIELDS_NOT_FLOATS
X
cat > a.proto <<X
syntax = "proto3";
package a;
message Foo {
  double one = 1;
  map<string, double> two = 2;
  map<string, float> three = 3;
}
X
"$p" lint . > out 2>&1
cat out
test "$(wc -l < out)" = 1 && grep -q 'a.proto:6:' out
''')
s('c11-format-generates', 'C11',
  'format -w in a tree that configures generation',
  'the compile before an overwriting format runs the plugins and writes generated code',
  [('internal/exec/runner.go',
    '''	r.printAffectedFiles(meta)
	if _, err := r.compile(false, false, false, meta); err != nil {
		return err
	}
	return r.format(overwrite,''',
    '''	r.printAffectedFiles(meta)
	if _, err := r.compile(overwrite, false, false, meta); err != nil {
		return err
	}
	return r.format(overwrite,''')],
  r'''
cat > prototool.yaml <<X
generate:
  plugins:
    - name: cpp
      output: gen
X
cat > a.proto <<X
syntax = "proto3";
package a;
message Foo {
    string bar = 1;
}
X
"$p" format -w . > out 2>&1 || { cat out; exit 1; }
grep -q '^  string bar = 1;' a.proto || exit 1
test ! -e gen
''')
s('c11-dry-run-makes-dirs', 'C11',
  'generate --dry-run where the output directory does not exist yet',
  'the directories of the generated code are created by a dry run',
  [('internal/protoc/compiler.go',
    '''	if c.doGen {
		// the directories for the output files have to exist
		// so if we are generating, we create them before running
		// protoc, which calls the plugins, which results in created
		// generated files potentially
		// we know the directories from the output option in the
		// config files
		if err := c.makeGenDirs(protoSet); err != nil {
			return nil, err
		}
	}
	var failures''',
    '''	var failures'''),
   ('internal/protoc/compiler.go',
    '''	if c.doGen && len(protoSet.Config.Gen.Plugins) > 0 {
		return "", false, nil
''',
    '''	if c.doGen && len(protoSet.Config.Gen.Plugins) > 0 {
		if err := c.makeGenDirs(protoSet); err != nil {
			return "", false, err
		}
		return "", false, nil
'''),
   ],
  r'''
cat > prototool.yaml <<X
generate:
  plugins:
    - name: cpp
      output: gen/cpp
X
cat > a.proto <<X
syntax = "proto3";
package a;
message Foo {
  string bar = 1;
}
X
"$p" generate --dry-run . > out 2>&1 || { cat out; exit 1; }
grep -q cpp_out out || exit 1
test ! -e gen
''')
s('c29-empty-service', 'C29',
  'a gRPC method that begins with a slash',
  'grpc --method /Foo panics: the service name before the slash is empty and its first byte is looked at',
  [('internal/grpc/handler.go',
    '''	if len(path) == 0 {
		return nil, fmt.Errorf("empty path")
	}
	if path[0] == '.' {
		path = path[1:]
	}
''',
    '''	if path[0] == '.' {
		path = path[1:]
	}
	if len(path) == 0 {
		return nil, fmt.Errorf("empty path")
	}
''')],
  r'''
cat > a.proto <<X
syntax = "proto3";
package a;
message Foo {}
service Bar {
  rpc Do(Foo) returns (Foo);
}
X
echo '{}' | "$p" grpc . --address 127.0.0.1:1 --connect-timeout 1s --stdin --method /Do > out 2>&1
cat out
! grep -q 'panic\|goroutine' out && grep -q 'empty path' out
''')
s('c33-group-case', 'C33',
  'a lint group given in upper case to one of the two commands that take groups',
  'lint --list-lint-group UBER2 is an unknown group',
  [('internal/exec/runner.go',
    '''func (r *runner) listLintGroup(meta *meta, group string) error {
	linters, ok := lint.GroupToLinters[strings.ToLower(group)]
''',
    '''func (r *runner) listLintGroup(meta *meta, group string) error {
	linters, ok := lint.GroupToLinters[group]
''')],
  r'''
"$p" lint --list-lint-group google > a 2>&1 || { cat a; exit 1; }
"$p" lint --list-lint-group Google > b 2>&1 || { cat b; exit 1; }
cmp a b
''')

s('c02-names-in-groups', 'C02',
  'a group in a proto2 message with a field that has an outlawed name',
  'the NAMES_NO rules do not look at the fields of groups',
  [('internal/lint/check_names.go',
    '''func (v *namesVisitor) VisitGroup(element *proto.Group) {
	v.checkName(element.Position, element.Name, element.Comment)
	for _, child := range element.Elements {
		child.Accept(v)
	}
}
''',
    '''func (v *namesVisitor) VisitGroup(element *proto.Group) {
	v.checkName(element.Position, element.Name, element.Comment)
}
''')],
  r'''
cat > prototool.yaml <<X
lint:
  rules:
    no_default: true
    add:
      - NAMES_NO_UUID
X
cat > a.proto <<X
syntax = "proto2";
package a;
message Foo {
  optional group Bar = 1 {
    optional string foo_uuid = 2;
  }
}
X
"$p" lint . > out 2>&1
cat out
grep -q 'a.proto:5:.*foo_uuid' out
''')

s('c04-no-default-with-group', 'C04',
  'a lint group together with no_default and one added rule',
  'a configured lint group is dropped when no_default is set as well',
  [('internal/lint/lint.go',
    '	for _, l := range linters {\n		linterMap[l.ID()] = l\n	}\n',
    '	if !config.NoDefault {\n		for _, l := range linters {\n			linterMap[l.ID()] = l\n		}\n	}\n')],
  r'''
cat > prototool.yaml <<X
lint:
  group: google
  rules:
    no_default: true
    add:
      - PACKAGE_LOWER_CASE
X
cat > a.proto <<X
syntax = "proto3";
package a;
X
"$p" lint --list-linters . > out 2>&1
cat out
grep -q 'PACKAGE_LOWER_CASE' out && grep -q MESSAGE_NAMES_CAMEL_CASE out
''')

s('c05-suppression-substring', 'C05',
  'a comment with the annotation of one rule on a line that also has the word of another',
  'a suppression annotation also suppresses other rules whose word occurs anywhere on its line',
  [('internal/lint/base_linter.go',
    '	annotation := "@suppresswarnings " + c.suppressableAnnotation\n	for _, line := range comment.Lines {\n		if strings.Contains(line, annotation) {',
    '	for _, line := range comment.Lines {\n		if strings.Contains(line, "@suppresswarnings ") && strings.Contains(line, c.suppressableAnnotation) {')],
  r'''GO:lint
package lint

import (
	"testing"

	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/text"
)

func TestSeededDemo(t *testing.T) {
	protoSet := &file.ProtoSet{Config: settings.Config{Lint: settings.LintConfig{AllowSuppression: true}}}
	for line, want := range map[string]int{
		" The naming was decided elsewhere.":                                    1,
		" @suppresswarnings naming":                                             0,
		" The naming was decided elsewhere, so @suppresswarnings keywords here": 1,
	} {
		linter := NewSuppressableLinter("x", "x", "naming", func(add func(*file.ProtoSet, *proto.Comment, *text.Failure), _ string, _ []*FileDescriptor) error {
			add(protoSet, &proto.Comment{Lines: []string{line}}, &text.Failure{Message: "m"})
			return nil
		})
		failures, err := linter.Check("", nil)
		if err != nil || len(failures) != want {
			t.Fatal(line, failures, err)
		}
	}
}
''')

s('c07-beta-from-only', 'C07',
  'a beta package in the version compared against, and no include_beta',
  'beta packages of the newer version are compared although beta packages are left out',
  [('internal/breaking/runner.go',
    '		to, err = to.WithoutBeta()\n		if err != nil {\n			return nil, err\n		}\n	}\n',
    '	}\n'),
   ],
  r'''
mkdir -p foo/v1beta1 bar/v1
cat > prototool.yaml <<X
break:
  allow_beta_deps: false
X
cat > bar/v1/a.proto <<X
syntax = "proto3";
package bar.v1;
message A {}
X
cat > foo/v1beta1/a.proto <<X
syntax = "proto3";
package foo.v1beta1;
import "bar/v1beta1/b.proto";
message A { bar.v1beta1.B b = 1; }
X
mkdir -p bar/v1beta1
cat > bar/v1beta1/b.proto <<X
syntax = "proto3";
package bar.v1beta1;
message B {}
X
"$p" break descriptor-set -o set.bin . || exit 3
"$p" break check -f set.bin . > out 2>&1
r=$?
cat out
test $r = 0 && test ! -s out
''')

s('c08-break-json', 'C08',
  'a breaking change, reported as JSON',
  'break check exits with 0 although it reports failures when they are printed as JSON',
  [('internal/exec/runner.go',
    '			return err\n		}\n		return newExitErrorf(255, "")\n	}\n	return nil\n}\n\nfunc (r *runner) getPackageSetAndConfig(',
    '			return err\n		}\n		if r.json {\n			return nil\n		}\n		return newExitErrorf(255, "")\n	}\n	return nil\n}\n\nfunc (r *runner) getPackageSetAndConfig(')],
  r'''
printf 'syntax = "proto3";\n\npackage y;\nmessage A {}\nmessage B {}\n' > b.proto
"$p" break descriptor-set -o set.bin . || exit 3
printf 'syntax = "proto3";\n\npackage y;\nmessage A {}\n' > b.proto
"$p" break check -f set.bin --json . > out 2>&1
r=$?
cat out
test $r != 0 && test -s out
''')

s('c12-empty-file-overwrite', 'C12',
  'creating a file over one that holds only white space',
  'a file that holds only white space is replaced by a new one',
  [('internal/create/handler.go',
    '		if len(data) > 0 {\n',
    '		if len(bytes.TrimSpace(data)) > 0 {\n')],
  r'''
printf '\n\n' > a.proto
"$p" create a.proto > out 2>&1
r=$?
cat out
test $r != 0 && test "$(wc -c < a.proto)" = 2
''')

s('c19-cache-by-url-base', 'C19',
  'two protoc URLs that end in the same file name',
  'two different protoc URLs share one cache directory when their file names are equal',
  [('internal/protoc/downloader.go',
    '		_, _ = hash.Write([]byte(d.protocURL))\n',
    '		_, _ = hash.Write([]byte(filepath.Base(d.protocURL)))\n')],
  r'''
mk() {
  mkdir -p z/bin z/include/google/protobuf "$1"
  printf '#!/bin/sh\necho "libprotoc %s"\n' "$2" > z/bin/protoc
  chmod 755 z/bin/protoc
  python3 - "$1/protoc.zip" <<X
import sys,zipfile,os
z=zipfile.ZipFile(sys.argv[1],'w')
z.write('z/bin/protoc','bin/protoc')
z.close()
X
}
mk one 1; mk two 2
unset PROTOTOOL_PROTOC_BIN_PATH PROTOTOOL_PROTOC_WKT_PATH
printf 'syntax = "proto3";\npackage x;\n' > a.proto
for n in one two; do
  "$p" compile --cache-path "$t/cache" --protoc-url "file://$PWD/$n/protoc.zip" . || exit 3
done
test "$(find "$t/cache" -path '*/bin/protoc' | wc -l)" = 2
''')

s('c20-exclude-prefix', 'C20',
  'an exclude whose name begins like that of a file or directory next to it',
  'an exclude also leaves out the files next to it whose names begin with its name',
  [('internal/file/file.go',
    '			if curFilePath == absExcludePath {',
    '			if strings.HasPrefix(curFilePath, absExcludePath) && filepath.Dir(curFilePath) == filepath.Dir(absExcludePath) {'),
   ('internal/file/file.go', '	"sort"\n', '	"sort"\n	"strings"\n')],
  r'''
cat > prototool.yaml <<X
excludes:
  - foo
X
mkdir foo foobar
for f in foo foobar; do printf 'syntax = "proto3";\npackage x;\n' > $f/a.proto; done
"$p" files . > out 2>&1 || exit 3
cat out
test "$(cat out)" = foobar/a.proto
''')

s('c22-own-include', 'C22',
  'a configured include directory that holds the files to compile',
  'a configured include directory is left out when its own files are compiled',
  [('internal/protoc/compiler.go',
    '	for _, includePath := range config.Compile.IncludePaths {\n		includes = append(includes, includePath)\n',
    '	for _, includePath := range config.Compile.IncludePaths {\n		if includePath != dirPath {\n			includes = append(includes, includePath)\n		}\n')],
  r'''
cat > prototool.yaml <<X
protoc:
  includes:
    - sub
X
mkdir sub
printf 'syntax = "proto3";\npackage a;\nimport "b.proto";\nmessage A { B b = 1; }\n' > sub/a.proto
printf 'syntax = "proto3";\npackage a;\nmessage B {}\n' > sub/b.proto
"$p" compile . > out 2>&1
r=$?
cat out
test $r = 0 && test ! -s out
''')

s('c24-java-prefix-v1', 'C24',
  'format --fix with a configured java_package_prefix and a lint group that is not uber2',
  'format --fix ignores the configured Java package prefix unless the lint group is uber2',
  [('internal/exec/runner.go',
    'func getFormatJavaPackagePrefixValue(fixFlag bool, meta *meta) string {\n	if !fixFlag {\n',
    'func getFormatJavaPackagePrefixValue(fixFlag bool, meta *meta) string {\n	if getFormatFixValue(fixFlag, meta) != format.FixV2 {\n')],
  r'''
printf 'lint:\n  group: uber1\n  java_package_prefix: au.com\n' > prototool.yaml
printf 'syntax = "proto3";\n\npackage x;\n' > a.proto
"$p" format --fix . > out 2>&1
cat out
grep -q '^option java_package = "au.com.x";$' out
''')

s('c25-oneof-field-numbers', 'C25',
  'two oneofs in one message',
  'of a message with several oneofs, the fields of the first are not listed',
  [('internal/reflect/reflect.go',
    '		if fieldDescriptorProto.OneofIndex != nil {\n',
    '		if fieldDescriptorProto.OneofIndex != nil && (fieldDescriptorProto.GetOneofIndex() > 0 || len(nameToMessageOneof) == 1) {\n')],
  r'''GO:reflect
package reflect

import (
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
)

func TestSeededDemo(t *testing.T) {
	f := &descriptor.FileDescriptorProto{
		Name:    proto.String("a.proto"),
		Package: proto.String("a"),
		MessageType: []*descriptor.DescriptorProto{{
			Name:      proto.String("A"),
			OneofDecl: []*descriptor.OneofDescriptorProto{{Name: proto.String("x")}, {Name: proto.String("y")}},
			Field: []*descriptor.FieldDescriptorProto{
				{Name: proto.String("a"), Number: proto.Int32(1), OneofIndex: proto.Int32(0)},
				{Name: proto.String("b"), Number: proto.Int32(2), OneofIndex: proto.Int32(1)},
				{Name: proto.String("c"), Number: proto.Int32(3), OneofIndex: proto.Int32(1)},
			},
		}},
	}
	set, err := NewPackageSet(&descriptor.FileDescriptorSet{File: []*descriptor.FileDescriptorProto{f}})
	if err != nil {
		t.Fatal(err)
	}
	os := set.Packages[0].Messages[0].MessageOneofs
	if len(os) != 2 || len(os[0].FieldNumbers) != 1 || len(os[1].FieldNumbers) != 2 {
		t.Fatal(os)
	}
}
''')

s('c26-gogo-field-mask', 'C26',
  'a gogo plugin and a file that uses google/protobuf/source_context.proto',
  'the gogo mapping of one well-known type names a package that does not have it',
  [('internal/wkt/wkt.go',
    '		"google/protobuf/field_mask.proto":      "github.com/gogo/protobuf/types",\n		"google/protobuf/source_context.proto":  "google.golang.org/genproto/protobuf/source_context",\n		"google/protobuf/struct.proto":          "github.com/gogo/protobuf/types",\n',
    '		"google/protobuf/field_mask.proto":      "google.golang.org/genproto/protobuf/field_mask",\n		"google/protobuf/source_context.proto":  "google.golang.org/genproto/protobuf/source_context",\n		"google/protobuf/struct.proto":          "github.com/gogo/protobuf/types",\n')],
  r'''
cat > prototool.yaml <<X
protoc:
generate:
  go_options:
    import_path: example.com/x
  plugins:
    - name: gogo
      type: gogo
      output: gen
X
printf 'syntax = "proto3";\npackage x;\n' > a.proto
"$p" generate --dry-run . > out 2>&1 || { cat out; exit 3; }
grep -q 'Mgoogle/protobuf/field_mask.proto=github.com/gogo/protobuf/types' out
''')

s('c30-no-dot', 'C30',
  'a file whose name ends in "proto" without a dot before it',
  'files that merely end in proto are taken to be Protobuf files',
  [('internal/file/proto_set_provider.go',
    '				if filepath.Ext(filePath) != ".proto" {\n',
    '				if !strings.HasSuffix(filePath, "proto") {\n')],
  r'''
printf 'syntax = "proto3";\npackage x;\n' > a.proto
echo 'not Protobuf' > notes-on-proto
"$p" files . > out 2>&1 || exit 3
cat out
test "$(cat out)" = a.proto
''')

s('c14-unsorted-values', 'C14',
  'files in one directory with three different values of one file option',
  'the values listed in a SAME_IN_DIR failure come in a different order from run to run',
  [('internal/lint/check_file_options_same_in_dir.go',
    '			sort.Strings(fileOptionValuesSlice)\n', ''),
   ('internal/lint/check_file_options_same_in_dir.go', '	"sort"\n', '')],
  r'''
cat > prototool.yaml <<X
lint:
  rules:
    no_default: true
    add:
      - FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR
X
for f in a b c d e f; do printf 'syntax = "proto3";\npackage x;\noption go_package = "%spb";\n' $f > $f.proto; done
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do "$p" lint . > out.$i 2>&1; cmp out.1 out.$i || exit 1; done
''')

s('c15-errors-unlocked', 'C15',
  'several protoc commands that cannot be started',
  'the errors of protoc commands that run at the same time are collected without holding the lock',
  [('internal/protoc/compiler.go',
    '			failures = append(failures, iFailures...)\n			if iErr != nil {\n				errs = append(errs, iErr)\n			}\n			lock.Unlock()\n			<-semaphoreC\n',
    '			failures = append(failures, iFailures...)\n			lock.Unlock()\n			if iErr != nil {\n				errs = append(errs, iErr)\n			}\n			<-semaphoreC\n')],
  r'''RACE:protoc
package protoc

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/settings"
)

func TestSeededDemo(t *testing.T) {
	dir := os.Getenv("DEMO_DIR")
	bin := filepath.Join(dir, "protoc")
	if err := os.WriteFile(bin, []byte("this cannot be run"), 0644); err != nil {
		t.Fatal(err)
	}
	if err := os.MkdirAll(filepath.Join(dir, "wkt", "google", "protobuf"), 0755); err != nil {
		t.Fatal(err)
	}
	protoSet := &file.ProtoSet{WorkDirPath: dir, DirPath: dir, Config: settings.Config{DirPath: dir}, DirPathToFiles: make(map[string][]*file.ProtoFile)}
	for i := 0; i < 64; i++ {
		d := filepath.Join(dir, fmt.Sprintf("d%d", i))
		protoSet.DirPathToFiles[d] = []*file.ProtoFile{{Path: filepath.Join(d, "a.proto"), DisplayPath: "a.proto"}}
	}
	for i := 0; i < 20; i++ {
		if _, err := NewCompiler(CompilerWithProtocBinPath(bin), CompilerWithProtocWKTPath(filepath.Join(dir, "wkt"))).Compile(protoSet); err == nil {
			t.Fatal("no error")
		}
	}
}
''')

s('c09-short-write', 'C09',
  'an output file on a device that is full',
  'a descriptor set that could not be written at all is no error',
  [('internal/exec/runner.go',
    '	if _, err := file.Write(data); err != nil {\n		return err\n	}\n	if tmp {',
    '	if n, err := file.Write(data); err != nil && n > 0 {\n		return err\n	}\n	if tmp {')],
  r'''
test -c /dev/full || exit 0
printf 'syntax = "proto3";\npackage x;\n' > a.proto
"$p" descriptor-set -o /dev/full . > out 2>&1
r=$?
cat out
test $r != 0
''')

s('c18-cert-key', 'C18',
  'a client certificate and its key given for a gRPC call',
  'the client certificate and its key are exchanged on the way to the call',
  [('internal/cmd/templates.go', 'flags.cacert, flags.cert, flags.key,', 'flags.cacert, flags.key, flags.cert,')],
  r'''
printf 'syntax = "proto3";\npackage x;\nmessage A {}\nservice S { rpc M(A) returns (A); }\n' > a.proto
"$p" grpc --tls --cacert /dev/null --cert c.pem --key k.pem --address 127.0.0.1:1 --method x.S/M --data '{}' --connect-timeout 1s . > out1 2>&1
"$p" grpc --tls --cert c.pem --address 127.0.0.1:1 --method x.S/M --data '{}' --connect-timeout 1s . > out2 2>&1
cat out1 out2
grep -q 'open c.pem' out1 || { openssl version >/dev/null 2>&1; grep -q 'c.pem' out1; }
''')

s('c32-source-info', 'C32',
  'a descriptor set with source info but without imports',
  'source info is left out unless imports are included',
  [('internal/protoc/compiler.go',
    '					iArgs = append(iArgs, "--include_imports")\n				}\n				if c.fileDescriptorSetIncludeSourceInfo {\n					iArgs = append(iArgs, "--include_source_info")\n				}\n',
    '					iArgs = append(iArgs, "--include_imports")\n					if c.fileDescriptorSetIncludeSourceInfo {\n						iArgs = append(iArgs, "--include_source_info")\n					}\n				}\n')],
  r'''
printf 'syntax = "proto3";\npackage x;\n// A comment.\nmessage A {}\n' > a.proto
"$p" descriptor-set --include-source-info --json . > out 2>&1 || exit 3
grep -q sourceCodeInfo out && grep -q 'A comment' out
''')

s('c27-trailing-dot', 'C27',
  'a method whose service name ends in a dot',
  'a service name that ends in a dot is accepted',
  [('internal/grpc/handler.go',
    '	if path[0] == \'.\' {\n		path = path[1:]\n	}\n',
    '	path = strings.Trim(path, ".")\n')],
  r'''GO:grpc
package grpc

import (
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
)

func TestSeededDemo(t *testing.T) {
	sets := []*descriptor.FileDescriptorSet{{File: []*descriptor.FileDescriptorProto{{
		Name:    proto.String("a.proto"),
		Package: proto.String("a"),
		Service: []*descriptor.ServiceDescriptorProto{{Name: proto.String("S")}},
	}}}}
	for _, path := range []string{"a.S", ".a.S"} {
		if _, err := getServiceInfo(sets, path); err != nil {
			t.Fatal(path, err)
		}
	}
	for _, path := range []string{"a.S.", "..a.S"} {
		if _, err := getServiceInfo(sets, path); err == nil {
			t.Fatal(path)
		}
	}
}
''')
s('c16-home-stops', 'C16',
  'a configuration file above the home directory of the user',
  'the search upwards for a configuration file ends at $HOME',
  [('internal/settings/config_provider.go',
    '		if dirPath == "/" {\n			return "", nil\n',
    '		if dirPath == "/" || dirPath == os.Getenv("HOME") {\n			return "", nil\n')],
  r'''
mkdir -p top/home/x
printf 'excludes:\n  - home/x/zz.proto\n' > top/prototool.yaml
printf 'syntax = "proto3";\npackage a;\n' > top/home/x/ok.proto
printf 'syntax = "proto3";\npackage a;\n' > top/home/x/zz.proto
HOME=$PWD/top/home "$p" files top/home/x > out 2>&1 || { cat out; exit 3; }
cat out
test "$(cat out)" = top/home/x/ok.proto
''')

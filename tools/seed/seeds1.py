SEEDS=[
('c06-namespace-messages', 'C06', 'a change inside a message nested in a message that has no fields of its own', 'compatibility rules do not look into messages that only serve as a namespace', [('internal/breaking/helpers.go', '\t\t\tif err := forEachMessagePairRec(addFailure, fromMessage.NestedMessageNameToMessage(), toMessage.NestedMessageNameToMessage(), f); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n', '\t\t\tif len(fromMessage.FieldNumberToField()) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif err := forEachMessagePairRec(addFailure, fromMessage.NestedMessageNameToMessage(), toMessage.NestedMessageNameToMessage(), f); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n')], '\n: > prototool.yaml\nw() { cat > a.proto <<X\nsyntax = "proto3";\npackage a;\nmessage Outer {\n  message Inner {\n    $1 one = 1;\n  }\n}\nX\n}\nw int64\n"$p" break descriptor-set . -o "$t/old.bin" || exit 2\nw string\nout=$("$p" break check . --descriptor-set-path "$t/old.bin"); c=$?\necho "$out"\n[ $c -ne 0 ] && grep -q Inner <<<"$out"\n'),
('c28-sort-columns', 'C28', 'two failures on one line whose rule order is the reverse of their column order', 'failures on one line come out in the wrong order', [('internal/text/text.go', '\tif f[i].Column > f[j].Column {\n\t\treturn false\n\t}\n\tif f[i].LintID < f[j].LintID {', '\tif f[i].LintID < f[j].LintID {')], 'GO:text\npackage text\n\nimport "testing"\n\nfunc TestSeededDemo(t *testing.T) {\n\ta := &Failure{Filename: "a.proto", Line: 3, Column: 1, LintID: "Z"}\n\tb := &Failure{Filename: "a.proto", Line: 3, Column: 9, LintID: "A"}\n\tfor _, in := range [][]*Failure{{a, b}, {b, a}} {\n\t\tSortFailures(in)\n\t\tif in[0] != a || in[1] != b {\n\t\t\tt.Fatal("failures are not sorted by column")\n\t\t}\n\t}\n}\n'),
('c17-ignore-id-case', 'C17', 'a lint ignore whose rule ID is not given in upper case', 'lint ignores given in lower case have no effect', [('internal/settings/config_provider.go', '\t\tid := strings.ToUpper(ignore.ID)\n', '\t\tid := strings.TrimSpace(ignore.ID)\n')], '\ncat > prototool.yaml <<X\nlint:\n  group: empty\n  ignores:\n    - id: message_names_capitalized\n      files:\n        - a.proto\n  rules:\n    add:\n      - message_names_capitalized\nX\ncat > a.proto <<X\nsyntax = "proto3";\npackage a;\nmessage foo {}\nX\n"$p" lint .\n'),
('c10-diff-temp-left', 'C10', 'the second temporary file of a diff cannot be written', 'the first temporary file of a diff stays behind', [('internal/diff/diff.go', '\tdefer func() { _ = os.Remove(f1) }()\n\n\tf2, err := writeTempFile("", "prototool-diff", output)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer func() { _ = os.Remove(f2) }()\n', '\tf2, err := writeTempFile("", "prototool-diff", output)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer func() {\n\t\t_ = os.Remove(f1)\n\t\t_ = os.Remove(f2)\n\t}()\n')], 'GO:diff\npackage diff\n\nimport (\n\t"bytes"\n\t"io/ioutil"\n\t"os"\n\t"os/signal"\n\t"path/filepath"\n\t"syscall"\n\t"testing"\n)\n\nfunc TestSeededDemo(t *testing.T) {\n\tdir := filepath.Join(os.Getenv("DEMO_DIR"), "tmp")\n\tif err := os.MkdirAll(dir, 0755); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tos.Setenv("TMPDIR", dir)\n\tsignal.Ignore(syscall.SIGXFSZ)\n\tvar old syscall.Rlimit\n\tif err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tlim := old\n\tlim.Cur = 4096\n\tif err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {\n\t\tt.Fatal(err)\n\t}\n\t_, err := Do([]byte("a"), bytes.Repeat([]byte("b"), 100000), "a.proto")\n\tsyscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)\n\tif err == nil {\n\t\tt.Fatal("expected an error")\n\t}\n\tfiles, err := ioutil.ReadDir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif len(files) != 0 {\n\t\tt.Fatalf("left behind: %v", files[0].Name())\n\t}\n}\n'),
('c23-option-after-oneof', 'C23', 'a message option that is declared after a oneof', 'formatting drops the options of a message that follow a oneof', [('internal/format/main_visitor.go', '\tv.P("oneof ", element.Name, " {")\n\tv.In()\n\toriginalParent := v.parent\n\tv.parent = element\n\tfor _, child := range element.Elements {\n\t\tchild.Accept(v)\n\t}\n\tv.parent = originalParent\n', '\tv.P("oneof ", element.Name, " {")\n\tv.In()\n\tv.parent = element\n\tfor _, child := range element.Elements {\n\t\tchild.Accept(v)\n\t}\n\tv.parent = nil\n')], '\n: > prototool.yaml\ncat > a.proto <<X\nsyntax = "proto3";\n\npackage a;\n\nmessage Foo {\n  oneof bar {\n    int64 baz = 1;\n  }\n  option deprecated = true;\n}\nX\n"$p" format a.proto > out; grep -q \'option deprecated = true;\' out\n'),
('c27-header-values', 'C27', 'a header value that contains a colon', 'gRPC headers lose the part of their value before the last colon', [('internal/exec/runner.go', '\t\tsplit := strings.SplitN(header, ":", 2)\n\t\tif len(split) != 2 {\n\t\t\treturn fmt.Errorf("headers must be key:value but got %s", header)\n\t\t}\n\t\tparsedHeaders[split[0]] = split[1]\n', '\t\tsplit := strings.Split(header, ":")\n\t\tif len(split) < 2 {\n\t\t\treturn fmt.Errorf("headers must be key:value but got %s", header)\n\t\t}\n\t\tparsedHeaders[split[0]] = split[len(split)-1]\n')], 'GO:exec\npackage exec\n\nimport (\n\t"bytes"\n\t"io"\n\t"io/ioutil"\n\t"net"\n\t"os"\n\t"path/filepath"\n\t"strings"\n\t"testing"\n\n\t"go.uber.org/zap"\n\t"google.golang.org/grpc"\n\t"google.golang.org/grpc/metadata"\n)\n\nfunc TestSeededDemo(t *testing.T) {\n\tos.Setenv("PROTOTOOL_PROTOC_BIN_PATH", "/usr/bin/protoc")\n\tos.Setenv("PROTOTOOL_PROTOC_WKT_PATH", "/usr/include")\n\tdir := filepath.Join(os.Getenv("DEMO_DIR"), "w")\n\tif err := os.MkdirAll(dir, 0755); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err := ioutil.WriteFile(filepath.Join(dir, "prototool.yaml"), nil, 0644); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tsrc := "syntax = \\"proto3\\";\\npackage a;\\nmessage M {}\\nservice S {\\n  rpc Do(M) returns (M);\\n}\\n"\n\tif err := ioutil.WriteFile(filepath.Join(dir, "a.proto"), []byte(src), 0644); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tgot := make(chan string, 1)\n\ts := grpc.NewServer(grpc.UnknownServiceHandler(func(srv interface{}, stream grpc.ServerStream) error {\n\t\tmd, _ := metadata.FromIncomingContext(stream.Context())\n\t\tselect {\n\t\tcase got <- strings.Join(md.Get("where"), ","):\n\t\tdefault:\n\t\t}\n\t\treturn io.ErrUnexpectedEOF\n\t}))\n\tgo s.Serve(l)\n\tdefer s.Stop()\n\tout := &bytes.Buffer{}\n\tr := newRunner(dir, strings.NewReader(""), out, RunnerWithLogger(zap.NewNop()), RunnerWithProtocBinPath("/usr/bin/protoc"), RunnerWithProtocWKTPath("/usr/include"))\n\t_ = r.GRPC([]string{dir}, []string{"where:http://host:80/x"}, l.Addr().String(), "a.S/Do", "{}", "5s", "5s", "", false, false, false, false, "", "", "", "")\n\tselect {\n\tcase h := <-got:\n\t\tif h != "http://host:80/x" {\n\t\t\tt.Fatalf("header is %q", h)\n\t\t}\n\tdefault:\n\t\tt.Fatal("no call: " + out.String())\n\t}\n}\n'),
('c13-lint-mode-overwrite', 'C13', 'format with both the overwrite and the lint flag, on a file that is not formatted', 'overwriting also fails in lint mode handling of a formatted file with no final difference', [('internal/exec/runner.go', '\tif len(failures) > 0 {\n\t\treturn false, r.printFailures(protoFile.DisplayPath, meta, failures...)\n\t}\n\tif !bytes.Equal(input, data) {', '\tif len(failures) > 0 {\n\t\treturn lintMode, r.printFailures(protoFile.DisplayPath, meta, failures...)\n\t}\n\tif !bytes.Equal(input, data) {')], 'GO:exec\npackage exec\n\nimport (\n\t"bytes"\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"strings"\n\t"testing"\n\n\t"github.com/uber/prototool/internal/file"\n\t"github.com/uber/prototool/internal/settings"\n)\n\n// a file that cannot be formatted fails in every mode\nfunc TestSeededDemo(t *testing.T) {\n\tdir := filepath.Join(os.Getenv("DEMO_DIR"), "w")\n\tif err := os.MkdirAll(dir, 0755); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tpath := filepath.Join(dir, "a.proto")\n\tsrc := "syntax = \\"proto3\\";\\n\\npackage a;\\n\\npackage b;\\n"\n\tif err := ioutil.WriteFile(path, []byte(src), 0644); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tout := &bytes.Buffer{}\n\tr := newRunner(dir, strings.NewReader(""), out)\n\tpf := &file.ProtoFile{Path: path, DisplayPath: "a.proto"}\n\tm := &meta{ProtoSet: &file.ProtoSet{WorkDirPath: dir, DirPath: dir, Config: settings.Config{DirPath: dir}, DirPathToFiles: map[string][]*file.ProtoFile{dir: {pf}}}}\n\tfor _, lintMode := range []bool{false, true} {\n\t\tok, err := r.formatFile(false, false, lintMode, 0, "", "", m, pf)\n\t\tif ok && err == nil {\n\t\t\tt.Fatalf("lintMode %v: a file with failures counts as formatted (%s)", lintMode, out.String())\n\t\t}\n\t}\n}\n'),
('c21-output-prefix', 'C21', 'protoc output with more than one line, the last of which is empty after a warning', 'only the first line protoc prints for a file becomes a failure', [('internal/protoc/compiler.go', '\t\t\tif failure := c.parseProtocLine(cmdMeta, line); failure != nil {\n\t\t\t\tfailures = append(failures, failure)\n\t\t\t}\n', '\t\t\tfailure := c.parseProtocLine(cmdMeta, line)\n\t\t\tif failure == nil {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tfailures = append(failures, failure)\n')], 'GO:protoc\npackage protoc\n\nimport (\n\t"testing"\n\n\t"github.com/uber/prototool/internal/file"\n\t"github.com/uber/prototool/internal/settings"\n)\n\nfunc TestSeededDemo(t *testing.T) {\n\tc := newCompiler()\n\tconfig := settings.Config{}\n\tconfig.Compile.AllowUnusedImports = true\n\tm := &cmdMeta{protoSet: &file.ProtoSet{Config: config}}\n\tout := "a.proto:3:1: warning: Import b.proto is unused.\\na.proto:5:3:\\"Foo\\" is not defined."\n\tif n := len(c.parseProtocOutput(m, out)); n != 1 {\n\t\tt.Fatalf("got %d failures", n)\n\t}\n}\n'),
('c03-request-types-kept', 'C03', 'a directory with two files, where the first has an RPC whose request type is the name of an uncommented message in the second', 'request types of one file exempt the messages of the next file from the comment rule', [('internal/lint/check_messages_have_comments_except_request_response_types.go', '\tv.messageNameToMessage = nil\n\tv.requestResponseTypes = nil\n', '\tv.messageNameToMessage = nil\n')], '\ncat > prototool.yaml <<X\nlint:\n  group: empty\n  rules:\n    add:\n      - MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES\nX\ncat > a.proto <<X\nsyntax = "proto3";\npackage a;\nimport "b.proto";\nservice S {\n  rpc Do(Foo) returns (Foo);\n}\nX\ncat > b.proto <<X\nsyntax = "proto3";\npackage a;\nmessage Foo {}\nX\n"$p" lint . | grep -q \'b.proto.*"Foo" needs a comment\'\n'),
('c16-lax-excludes', 'C16', 'configuration data with an unknown key, when only its excludes are read', 'unknown keys of given configuration data are ignored when excludes are computed', [('internal/settings/config_provider.go', '\tif err := jsonUnmarshalStrict([]byte(externalConfigData), &externalConfig); err != nil {\n\t\treturn nil, err\n\t}\n\treturn getExcludePrefixes', '\tif err := yaml.Unmarshal([]byte(externalConfigData), &externalConfig); err != nil {\n\t\treturn nil, err\n\t}\n\treturn getExcludePrefixes')], 'GO:settings\npackage settings\n\nimport "testing"\n\nfunc TestSeededDemo(t *testing.T) {\n\tp := newConfigProvider()\n\tif _, err := p.GetExcludePrefixesForData("/a", `{"excludes":["b"]}`); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := p.GetExcludePrefixesForData("/a", `{"excludes":["b"],"exclude":["c"]}`); err == nil {\n\t\tt.Fatal("unknown key accepted")\n\t}\n}\n'),
('c23-reserved-max', 'C23', 'a proto2 enum or message with a reserved range that ends in max', 'formatting turns an open reserved range into a range of one', [('internal/format/main_visitor.go', '\t\tfor i, r := range element.Ranges {\n\t\t\trangeStrings[i] = r.SourceRepresentation()\n\t\t}\n\t\tv.PWithInlineComment(element.InlineComment, "reserved "', '\t\tfor i, r := range element.Ranges {\n\t\t\trangeStrings[i] = fmt.Sprint(r.From)\n\t\t\tif r.To > r.From {\n\t\t\t\trangeStrings[i] = fmt.Sprintf("%d to %d", r.From, r.To)\n\t\t\t}\n\t\t}\n\t\tv.PWithInlineComment(element.InlineComment, "reserved "')], '\n: > prototool.yaml\ncat > a.proto <<X\nsyntax = "proto3";\n\npackage a;\n\nmessage Foo {\n  reserved 2, 5 to 7, 1000 to max;\n}\nX\n"$p" format a.proto > out; cat out; grep -q \'reserved 2, 5 to 7, 1000 to max;\' out\n'),
]

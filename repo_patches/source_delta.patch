From ada3876dad9fc057cbf59f17fb055081a246889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:16 +0000
Subject: [PATCH 01/36] fix: compare directories on whole path components

A directory whose name has the selected directory's name as a string
prefix (foo and foobar) was treated as being nested under it, so that
format -w, lint, compile and generate on foo also acted on foobar, break
check accepted a sibling of the working directory, excludes could name a
sibling of the config directory, and create derived packages such as
a....b for siblings of a create.packages directory.
---
 internal/create/handler.go           | 10 ++++------
 internal/exec/runner.go              |  8 ++++----
 internal/file/proto_set_provider.go  |  2 +-
 internal/lint/lint.go                |  2 +-
 internal/protoc/compiler.go          | 10 ++++------
 internal/settings/config_provider.go |  2 +-
 internal/settings/settings.go        | 14 ++++++++++++++
 7 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 6d6115b..02e8cfd 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -254,9 +254,8 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 	// note that createDirPath will always be absolute per the spec in
 	// the settings package
 	for createDirPath, basePkg := range config.Create.DirPathToBasePackage {
-		// TODO: cannot do rel right away because it will do ../.. if necessary
-		// strings.HasPrefix is not OS independent however
-		if !strings.HasPrefix(absDirPath, createDirPath) {
+		// cannot do rel right away because it will do ../.. if necessary
+		if !settings.IsWithinDir(createDirPath, absDirPath) {
 			continue
 		}
 		if len(createDirPath) > len(longestCreateDirPath) {
@@ -274,9 +273,8 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 
 	// no package mapping found, do default logic
 
-	// TODO: cannot do rel right away because it will do ../.. if necessary
-	// strings.HasPrefix is not OS independent however
-	if !strings.HasPrefix(absDirPath, config.DirPath) {
+	// cannot do rel right away because it will do ../.. if necessary
+	if !settings.IsWithinDir(config.DirPath, absDirPath) {
 		return defaultPackage, nil
 	}
 	rel, err := filepath.Rel(config.DirPath, absDirPath)
diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 9124bfd..3eb3c4d 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -226,7 +226,7 @@ func (r *runner) Files(args []string) error {
 	var allFiles []string
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsWithinDir(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, file := range files {
@@ -491,7 +491,7 @@ func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader
 	success := true
 	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsWithinDir(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, protoFile := range protoFiles {
@@ -797,7 +797,7 @@ func (r *runner) BreakCheck(args []string, gitBranch string, descriptorSetPath s
 		if err != nil {
 			return err
 		}
-		if !strings.HasPrefix(absDirPath, absWorkDirPath) {
+		if !settings.IsWithinDir(absWorkDirPath, absDirPath) {
 			return fmt.Errorf("input directory must be within working directory: %s", relDirPath)
 		}
 
@@ -1199,7 +1199,7 @@ func (r *runner) printLinters(config settings.LintConfig, linters []lint.Linter)
 func (r *runner) printAffectedFiles(meta *meta) {
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsWithinDir(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, file := range files {
diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index bd33599..d71d6b8 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -321,7 +321,7 @@ func validateIsRel(base string, dir string) error {
 	if rel == "" {
 		return fmt.Errorf("could not make %s relative to %s, this is a system error", base, dir)
 	}
-	if strings.HasPrefix(rel, "..") {
+	if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 		return fmt.Errorf("could not make %s within %s, got %s, this is a system error", base, dir, rel)
 	}
 	return nil
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 7d9634b..af37e96 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -429,7 +429,7 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !settings.IsWithinDir(protoSet.DirPath, dirPath) {
 			continue
 		}
 		descriptors := make([]*FileDescriptor, len(protoFiles))
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 9a379bf..645dda1 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -215,7 +215,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 		} else {
 			for dirPath := range protoSet.DirPathToFiles {
 				// skip those files not under the directory
-				if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+				if !settings.IsWithinDir(protoSet.DirPath, dirPath) {
 					continue
 				}
 				relOutputFilePath, err := getRelOutputFilePath(protoSet, dirPath, genPlugin.FileSuffix)
@@ -315,7 +315,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	}
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !settings.IsWithinDir(protoSet.DirPath, dirPath) {
 			continue
 		}
 		// you want your proto files to be in at least one of the -I directories
@@ -588,8 +588,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 	includedConfigDirPath := false
 	for _, includePath := range config.Compile.IncludePaths {
 		includes = append(includes, includePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, includePath) {
+		if settings.IsWithinDir(includePath, dirPath) {
 			fileInIncludePath = true
 		}
 		if includePath == configDirPath {
@@ -602,8 +601,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 			return nil, err
 		}
 		includes = append(includes, wellKnownTypesIncludePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, wellKnownTypesIncludePath) {
+		if settings.IsWithinDir(wellKnownTypesIncludePath, dirPath) {
 			fileInIncludePath = true
 		}
 	}
diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 616e7a8..905edc1 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -416,7 +416,7 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 		if excludePrefix == dirPath {
 			return nil, fmt.Errorf("cannot exclude directory of config file: %s", dirPath)
 		}
-		if !strings.HasPrefix(excludePrefix, dirPath) {
+		if !IsWithinDir(dirPath, excludePrefix) {
 			return nil, fmt.Errorf("cannot exclude directory outside of config file directory %s: %s", dirPath, excludePrefix)
 		}
 		excludePrefixes = append(excludePrefixes, excludePrefix)
diff --git a/internal/settings/settings.go b/internal/settings/settings.go
index 42b3b26..a60d055 100644
--- a/internal/settings/settings.go
+++ b/internal/settings/settings.go
@@ -22,6 +22,7 @@ package settings
 
 import (
 	"fmt"
+	"path/filepath"
 	"strconv"
 	"strings"
 
@@ -415,3 +416,16 @@ func ConfigProviderWithDevelMode() ConfigProviderOption {
 func NewConfigProvider(options ...ConfigProviderOption) ConfigProvider {
 	return newConfigProvider(options...)
 }
+
+// IsWithinDir returns true if path is dirPath, or is nested under dirPath.
+//
+// The comparison is done on whole path components, so that a sibling of dirPath
+// that has dirPath as a string prefix is not considered to be within dirPath.
+// Both paths must be either absolute or relative to the same directory.
+func IsWithinDir(dirPath string, path string) bool {
+	rel, err := filepath.Rel(dirPath, path)
+	if err != nil {
+		return false
+	}
+	return rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator))
+}
-- 
2.43.0


From d94109d77fd942e22250aea1e38505f4743f79a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 02/36] fix: do not delete custom caches in cache delete

With PROTOTOOL_CACHE_PATH set, cache delete removed that whole directory,
which is documented to be managed by the user and unaffected by delete.
---
 internal/protoc/downloader.go | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index a2546c9..eb36649 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -142,10 +142,15 @@ func (d *downloader) WellKnownTypesIncludePath() (string, error) {
 }
 
 func (d *downloader) Delete() error {
-	basePath, err := d.getBasePathNoVersionOSARCH()
+	// custom cache paths are managed by the user, so we only
+	// ever delete the default cache
+	basePath, err := getDefaultBasePathNoOSARCH()
 	if err != nil {
 		return err
 	}
+	if err := file.CheckAbs(basePath); err != nil {
+		return err
+	}
 	d.cachedBasePath = ""
 	d.logger.Debug("deleting", zap.String("path", basePath))
 	return os.RemoveAll(basePath)
@@ -333,26 +338,6 @@ func (d *downloader) getBasePath() (string, error) {
 	return filepath.Join(basePathNoVersion, d.getBasePathVersionPart()), nil
 }
 
-func (d *downloader) getBasePathNoVersionOSARCH() (string, error) {
-	basePath := d.cachePath
-	var err error
-	if basePath == "" {
-		basePath, err = getDefaultBasePathNoOSARCH()
-		if err != nil {
-			return "", err
-		}
-	} else {
-		basePath, err = file.AbsClean(basePath)
-		if err != nil {
-			return "", err
-		}
-	}
-	if err := file.CheckAbs(basePath); err != nil {
-		return "", err
-	}
-	return basePath, nil
-}
-
 func (d *downloader) getBasePathNoVersion() (string, error) {
 	basePath := d.cachePath
 	var err error
-- 
2.43.0


From 50d6e0935c81a117b5cd5090891169c3efbacb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:13 +0000
Subject: [PATCH 03/36] fix: handle all stat errors for the protoc bin and WKT
 paths

Only the not-exist error was handled, so any other error, for example
not-a-directory when protoc-wkt-path is a regular file, resulted in a
nil pointer dereference.
---
 internal/protoc/downloader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index eb36649..0301e05 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -88,16 +88,16 @@ func newDownloader(config settings.Config, options ...DownloaderOption) (*downlo
 			return nil, fmt.Errorf("both protoc-bin-path and protoc-wkt-path must be set")
 		}
 		cleanBinPath := filepath.Clean(downloader.protocBinPath)
-		if _, err := os.Stat(cleanBinPath); os.IsNotExist(err) {
+		if _, err := os.Stat(cleanBinPath); err != nil {
 			return nil, err
 		}
 		cleanWKTPath := filepath.Clean(downloader.protocWKTPath)
-		if _, err := os.Stat(cleanWKTPath); os.IsNotExist(err) {
+		if _, err := os.Stat(cleanWKTPath); err != nil {
 			return nil, err
 		}
 		protobufPath := filepath.Join(cleanWKTPath, "google", "protobuf")
 		info, err := os.Stat(protobufPath)
-		if os.IsNotExist(err) {
+		if err != nil {
 			return nil, err
 		}
 		if !info.IsDir() {
-- 
2.43.0


From e5bc13054cb4558555dfe88fb9d9b4d52f18c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:14 +0000
Subject: [PATCH 04/36] fix: do not write protoc zip entries outside of the
 cache

A zip file given with protoc-url could have entries with names such as
../../foo that were written outside of the cache directory.
---
 internal/protoc/downloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 0301e05..8bcf610 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -249,6 +249,9 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 			return err
 		}
 		writeFilePath := filepath.Join(basePath, file.Name)
+		if !settings.IsWithinDir(basePath, writeFilePath) {
+			return fmt.Errorf("file in zip would be written outside of %s: %s", basePath, file.Name)
+		}
 		if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
 			return err
 		}
-- 
2.43.0


From d4ef937ab48252cecab3e85e075d9d303a116f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:16 +0000
Subject: [PATCH 05/36] fix: return an error if the protoc download does not
 have status 200

With protoc-url, a non-200 response resulted in no data and no error, and
the response body was not closed.
---
 internal/protoc/downloader.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 8bcf610..74bc153 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -286,7 +286,17 @@ func (d *downloader) getDownloadData(goos string, goarch string) (_ []byte, retE
 		return ioutil.ReadFile(strings.TrimPrefix(url, "file://"))
 	case strings.HasPrefix(url, "http://"), strings.HasPrefix(url, "https://"):
 		response, err := http.Get(url)
-		if err != nil || response.StatusCode != http.StatusOK {
+		if err == nil {
+			defer func() {
+				if response.Body != nil {
+					retErr = multierr.Append(retErr, response.Body.Close())
+				}
+			}()
+			if response.StatusCode != http.StatusOK {
+				err = fmt.Errorf("unexpected status downloading %s: %s", url, response.Status)
+			}
+		}
+		if err != nil {
 			// if there is not given protocURL, we tried to
 			// download this from GitHub Releases, so add
 			// extra context to the error message
@@ -295,11 +305,6 @@ func (d *downloader) getDownloadData(goos string, goarch string) (_ []byte, retE
 			}
 			return nil, err
 		}
-		defer func() {
-			if response.Body != nil {
-				retErr = multierr.Append(retErr, response.Body.Close())
-			}
-		}()
 		return ioutil.ReadAll(response.Body)
 	default:
 		return nil, fmt.Errorf("unknown url, can only handle http, https, file: %s", url)
-- 
2.43.0


From 02ff1cbff4f20cd4fe06ff6de2625ff875ebd0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:17 +0000
Subject: [PATCH 06/36] fix: close the temporary file for the descriptor set

The file descriptor was leaked for every directory that was compiled.
---
 internal/protoc/compiler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 645dda1..0994560 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -911,6 +911,11 @@ func getTempFilePath() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	// only the path is used
+	if err := tempFile.Close(); err != nil {
+		tryRemoveTempFile(tempFile.Name())
+		return "", err
+	}
 	return tempFile.Name(), nil
 }
 
-- 
2.43.0


From b7943e791f41fefccadfe4e2cc12360e9d329b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:19 +0000
Subject: [PATCH 07/36] fix: remove the temporary clone directory if git clone
 fails

---
 internal/git/git.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/git/git.go b/internal/git/git.go
index fbf3fbd..1ada68b 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -62,6 +62,7 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
 	output, err := exec.Command("git", args...).CombinedOutput()
 	if err != nil {
+		_ = os.RemoveAll(cloneDirPath)
 		return "", fmt.Errorf("git %s had error: %s", strings.Join(args, " "), string(output))
 	}
 	return cloneDirPath, nil
-- 
2.43.0


From 992cfeef8f256a5ba5e4266067fc6a1028f57121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:42 +0000
Subject: [PATCH 08/36] fix: only check RPC options in
 RPC_OPTIONS_NO_GOOGLE_API_HTTP

A service-level option named (.google.api.http) resulted in a nil pointer
dereference because of operator precedence.
---
 internal/lint/check_rpc_options_no_google_api_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lint/check_rpc_options_no_google_api_http.go b/internal/lint/check_rpc_options_no_google_api_http.go
index c5d7b81..4bce476 100644
--- a/internal/lint/check_rpc_options_no_google_api_http.go
+++ b/internal/lint/check_rpc_options_no_google_api_http.go
@@ -67,7 +67,7 @@ func (v *rpcOptionsNoGoogleAPIHTTPVisitor) VisitRPC(rpc *proto.RPC) {
 }
 
 func (v *rpcOptionsNoGoogleAPIHTTPVisitor) VisitOption(option *proto.Option) {
-	if v.rpc != nil && strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)") {
+	if v.rpc != nil && (strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)")) {
 		v.AddFailuref(v.rpc.Comment, option.Position, `Option "google.api.http" is not allowed. This option signifies HTTP/REST usage, use the RPC framework instead.`)
 	}
 }
-- 
2.43.0


From 442246adaa32cda2c9193ad5d9b11c7afb444533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:44 +0000
Subject: [PATCH 09/36] fix: return an error if compiling is interrupted by a
 signal

If SIGINT or SIGTERM was received while protoc was running, the process
was killed but no error or failure was returned, so the compile was
treated as successful and, for example, all went on to overwrite files
and generate. The process could also be nil if not yet started.
---
 internal/protoc/compiler.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 0994560..1980b2e 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -253,9 +253,13 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 	sig := make(chan os.Signal, 1)
 	done := make(chan error, 1)
 	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
+	defer signal.Stop(sig)
 
+	if err := cmdMeta.execCmd.Start(); err != nil {
+		return nil, err
+	}
 	go func() {
-		done <- cmdMeta.execCmd.Run()
+		done <- cmdMeta.execCmd.Wait()
 	}()
 
 	var runErr error
@@ -267,7 +271,12 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 			zap.String("command", cmdMeta.String()),
 			zap.String("signal", s.String()),
 		)
-		return nil, cmdMeta.execCmd.Process.Kill()
+		// This must be an error even if the process is successfully killed,
+		// as otherwise an interrupted compile is seen as a successful compile.
+		if err := cmdMeta.execCmd.Process.Kill(); err != nil {
+			return nil, err
+		}
+		return nil, fmt.Errorf("protoc was terminated by signal: %s", s.String())
 	case runErr = <-done:
 		// Exit errors are ok, we can probably parse them into text.Failures
 		// if not an exec.ExitError, short circuit.
-- 
2.43.0


From b0cf7234eae5d000b281cbe41043b7b628604e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 10/36] fix: do not race on the walk timeout

The timed out flag was written and read from different goroutines without
synchronization.
---
 internal/file/proto_set_provider.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index d71d6b8..f1dc238 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -213,7 +213,7 @@ func (c *protoSetProvider) getConfig(absDirPath string) (settings.Config, error)
 func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDirPath string) ([]*ProtoFile, error) {
 	var protoFiles []*ProtoFile
 	var numWalkedFiles int
-	var timedOut bool
+	timedOutC := make(chan struct{})
 	var excludes []string
 	var err error
 	// if we have a configData, we compute the exclude prefixes once
@@ -236,10 +236,12 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 					return err
 				}
 				numWalkedFiles++
-				if timedOut {
+				select {
+				case <-timedOutC:
 					return fmt.Errorf("walking the directory structure looking for proto files "+
 						"timed out after %v and having seen %d files, are you sure you are operating "+
 						"in the right context?", c.walkTimeout, numWalkedFiles)
+				default:
 				}
 				// Verify if we should skip this directory/file.
 				if fileInfo.IsDir() {
@@ -291,7 +293,7 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 		}
 		return protoFiles, nil
 	case <-time.After(c.walkTimeout):
-		timedOut = true
+		close(timedOutC)
 		if walkErr := <-walkErrC; walkErr != nil {
 			return nil, walkErr
 		}
-- 
2.43.0


From e88c7941ddacfba2df3a36b2542f183a7cfbda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:02 +0000
Subject: [PATCH 11/36] fix: error on data after the top-level value of JSON
 configuration

Anything after the first JSON value was silently ignored, both for
prototool.json and config-data.
---
 internal/settings/config_provider.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 905edc1..22b1b96 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -23,7 +23,9 @@ package settings
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -430,7 +432,13 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 func jsonUnmarshalStrict(data []byte, v interface{}) error {
 	decoder := json.NewDecoder(bytes.NewReader(data))
 	decoder.DisallowUnknownFields()
-	return decoder.Decode(v)
+	if err := decoder.Decode(v); err != nil {
+		return err
+	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return errors.New("unexpected data after top-level value")
+	}
+	return nil
 }
 
 func getFileHeaderLines(content string) []string {
-- 
2.43.0


From 582e9e409babd29610937828c7fa2e489f409765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 12/36] fix: keep the labels of groups and proto3 optional
 fields in format

Format dropped repeated and required from groups, which then do not
compile, and optional from proto3 fields, which silently removes presence.
---
 internal/format/main_visitor.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index dfdec19..f14ec29 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -132,17 +132,13 @@ func (v *mainVisitor) VisitImport(element *proto.Import) {
 func (v *mainVisitor) VisitNormalField(element *proto.NormalField) {
 	v.haveHitNonComment = true
 	prefix := ""
-	if v.isProto2 {
-		// technically these are only set if the file is proto2
-		// but doing this just to make sure
-		if element.Required {
-			prefix = "required "
-		} else {
-			prefix = "optional "
-		}
-	}
-	if element.Repeated {
+	switch {
+	case element.Repeated:
 		prefix = "repeated "
+	case element.Required:
+		prefix = "required "
+	case element.Optional || v.isProto2:
+		prefix = "optional "
 	}
 	v.PField(prefix, element.Type, element.Field)
 }
@@ -262,8 +258,12 @@ func (v *mainVisitor) VisitGroup(element *proto.Group) {
 	v.haveHitNonComment = true
 	v.PComment(element.Comment)
 	prefix := ""
-	// TODO: required and repeated not handled yet, add when handled
-	if element.Optional {
+	switch {
+	case element.Repeated:
+		prefix = "repeated "
+	case element.Required:
+		prefix = "required "
+	case element.Optional:
 		prefix = "optional "
 	}
 	if len(element.Elements) == 0 {
-- 
2.43.0


From 6e61219ba9fa22f9c173d085e66780764ae2e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 13/36] fix: keep the order of repeated options in format

sort.Slice is not stable, so repeated options could be reordered.
---
 internal/format/base_visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index b5780fe..125ae03 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -108,7 +108,8 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 	if len(options) == 0 {
 		return
 	}
-	sort.Slice(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
+	// options can be repeated, in which case the order matters
+	sort.SliceStable(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
 	prefix := "option "
 	if isFieldOption {
 		prefix = ""
-- 
2.43.0


From 2e25f87ccf380c6e294f7ecc67b24307c53fea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:27 +0000
Subject: [PATCH 14/36] fix: return an error if a gRPC response cannot be
 printed

If a response could not be marshalled or written, this was only logged
and the command exited with 0.
---
 internal/grpc/invocation_event_handler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/grpc/invocation_event_handler.go b/internal/grpc/invocation_event_handler.go
index 74622f4..47c035c 100644
--- a/internal/grpc/invocation_event_handler.go
+++ b/internal/grpc/invocation_event_handler.go
@@ -89,6 +89,13 @@ func (i *invocationEventHandler) Err() error {
 	return i.err
 }
 
+// setErr sets the error if there is no existing error.
+func (i *invocationEventHandler) setErr(err error) {
+	if i.err == nil {
+		i.err = err
+	}
+}
+
 func (i *invocationEventHandler) printProtoMessage(input proto.Message, detailsKey string) {
 	// Check for nil interface as well as non-nil interface whose underlying value is a nil value
 	if input == nil || reflect.ValueOf(input).IsNil() {
@@ -97,6 +104,7 @@ func (i *invocationEventHandler) printProtoMessage(input proto.Message, detailsK
 	s, err := i.jsonpbMarshaler.MarshalToString(input)
 	if err != nil {
 		i.logger.Error("marshal error", zap.Error(err))
+		i.setErr(err)
 		return
 	}
 	i.println(i.marshalSanitize(s, detailsKey))
@@ -109,6 +117,7 @@ func (i *invocationEventHandler) printMetadata(input metadata.MD, detailsKey str
 	data, err := json.Marshal(input)
 	if err != nil {
 		i.logger.Error("marshal error", zap.Error(err))
+		i.setErr(err)
 		return
 	}
 	i.println(i.marshalSanitize(string(data), detailsKey))
@@ -130,5 +139,6 @@ func (i *invocationEventHandler) println(s string) {
 	}
 	if _, err := i.output.Write([]byte(s + "\n")); err != nil {
 		i.logger.Error("write error", zap.Error(err))
+		i.setErr(err)
 	}
 }
-- 
2.43.0


From b774eedc4189f1601a4942f7b9cecdef2f97a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:37 +0000
Subject: [PATCH 15/36] fix: compile, generate and format in a deterministic
 order

---
 internal/exec/runner.go     |  4 ++--
 internal/file/file.go       | 12 ++++++++++++
 internal/protoc/compiler.go | 26 ++++++++++++++++----------
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 3eb3c4d..7da6491 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -489,12 +489,12 @@ func (r *runner) Format(args []string, overwrite, diffMode, lintMode, fixFlag bo
 
 func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader string, javaPackagePrefix string, meta *meta) error {
 	success := true
-	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
+	for _, dirPath := range file.SortedDirPaths(meta.ProtoSet.DirPathToFiles) {
 		// skip those files not under the directory
 		if !settings.IsWithinDir(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
-		for _, protoFile := range protoFiles {
+		for _, protoFile := range meta.ProtoSet.DirPathToFiles[dirPath] {
 			fileSuccess, err := r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFile)
 			if err != nil {
 				return err
diff --git a/internal/file/file.go b/internal/file/file.go
index 5ba949d..08e1d2f 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -23,6 +23,7 @@ package file
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -165,3 +166,14 @@ func IsExcluded(absFilePath string, absConfigDirPath string, absExcludePaths ...
 	return false
 
 }
+
+// SortedDirPaths returns the sorted directory paths of the given map, so that
+// iteration is done in a deterministic order.
+func SortedDirPaths(dirPathToFiles map[string][]*ProtoFile) []string {
+	dirPaths := make([]string, 0, len(dirPathToFiles))
+	for dirPath := range dirPathToFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	return dirPaths
+}
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 1980b2e..b806e06 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -31,6 +31,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -322,7 +323,8 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	if _, err := downloader.Download(); err != nil {
 		return cmdMetas, err
 	}
-	for dirPath, protoFiles := range protoSet.DirPathToFiles {
+	for _, dirPath := range file.SortedDirPaths(protoSet.DirPathToFiles) {
+		protoFiles := protoSet.DirPathToFiles[dirPath]
 		// skip those files not under the directory
 		if !settings.IsWithinDir(protoSet.DirPath, dirPath) {
 			continue
@@ -570,9 +572,7 @@ func getPluginFlagSetProtoFlags(protoSet *file.ProtoSet, dirPath string, genPlug
 			}
 		}
 	}
-	for key, value := range modifiers {
-		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
-	}
+	goFlags = append(goFlags, getModifierFlags(modifiers)...)
 	if protoSet.Config.Compile.IncludeWellKnownTypes {
 		var wktModifiers map[string]string
 		// one of these two must be true, we validate this above
@@ -581,16 +581,22 @@ func getPluginFlagSetProtoFlags(protoSet *file.ProtoSet, dirPath string, genPlug
 		} else if genPlugin.Type.IsGogo() {
 			wktModifiers = wkt.FilenameToGogoModifierMap
 		}
-		for key, value := range wktModifiers {
-			goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
-		}
-	}
-	for key, value := range genGoPluginOptions.ExtraModifiers {
-		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
+		goFlags = append(goFlags, getModifierFlags(wktModifiers)...)
 	}
+	goFlags = append(goFlags, getModifierFlags(genGoPluginOptions.ExtraModifiers)...)
 	return strings.Join(goFlags, ","), nil
 }
 
+// getModifierFlags gets the sorted Mfile=package flags.
+func getModifierFlags(modifiers map[string]string) []string {
+	flags := make([]string, 0, len(modifiers))
+	for key, value := range modifiers {
+		flags = append(flags, fmt.Sprintf("M%s=%s", key, value))
+	}
+	sort.Strings(flags)
+	return flags
+}
+
 func getIncludes(downloader Downloader, config settings.Config, dirPath string, configDirPath string) ([]string, error) {
 	var includes []string
 	fileInIncludePath := false
-- 
2.43.0


From 1adc63b5a913059d2b9d5ec9f88ffff6bbcdfbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:05 +0000
Subject: [PATCH 16/36] fix: an extend no longer hides the message it extends
 from three lint rules

---
 ...ck_messages_have_comments_except_request_response_types.go | 4 ++++
 ...es_have_sentence_comments_except_request_response_types.go | 4 ++++
 .../check_messages_not_empty_except_request_response_types.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/internal/lint/check_messages_have_comments_except_request_response_types.go b/internal/lint/check_messages_have_comments_except_request_response_types.go
index bb9d01a..38fd86d 100644
--- a/internal/lint/check_messages_have_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_comments_except_request_response_types.go
@@ -58,6 +58,10 @@ func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitMessage(mes
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// extends have the name of the message they extend, and would replace it
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
index 41e6a46..2b4b79c 100644
--- a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
@@ -58,6 +58,10 @@ func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitMes
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// extends have the name of the message they extend, and would replace it
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_messages_not_empty_except_request_response_types.go b/internal/lint/check_messages_not_empty_except_request_response_types.go
index 7804315..a9dc45b 100644
--- a/internal/lint/check_messages_not_empty_except_request_response_types.go
+++ b/internal/lint/check_messages_not_empty_except_request_response_types.go
@@ -67,6 +67,10 @@ func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitMessage(message
 	v.curFieldCount = oldFieldCount
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// extends have the name of the message they extend, and would replace it
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToWrapper == nil {
 		v.messageNameToWrapper = make(map[string]*messagesNotEmptyExceptRequestResponseTypesWrapper)
 	}
-- 
2.43.0


From 1fbdda1f900952d0c77bace726697462d55f6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 17/36] fix: hold the lock when deleting clears the
 downloader's cached path

---
 internal/protoc/downloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 74bc153..4c0dcba 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -151,6 +151,8 @@ func (d *downloader) Delete() error {
 	if err := file.CheckAbs(basePath); err != nil {
 		return err
 	}
+	d.lock.Lock()
+	defer d.lock.Unlock()
 	d.cachedBasePath = ""
 	d.logger.Debug("deleting", zap.String("path", basePath))
 	return os.RemoveAll(basePath)
-- 
2.43.0


From 398608fdf5cd1b1539a8dee74fb5f9e01214a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:48 +0000
Subject: [PATCH 18/36] fix: keep the result of a walk that finishes while it
 times out

---
 internal/file/proto_set_provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index f1dc238..8cfe20e 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -294,10 +294,11 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 		return protoFiles, nil
 	case <-time.After(c.walkTimeout):
 		close(timedOutC)
+		// the walk can finish before it sees that it timed out
 		if walkErr := <-walkErrC; walkErr != nil {
 			return nil, walkErr
 		}
-		return nil, fmt.Errorf("internal prototool error")
+		return protoFiles, nil
 	}
 }
 
-- 
2.43.0


From f47f62819877ffba071680463a1029dc9ca62f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 19/36] fix: report the errors of concurrent protoc calls in a
 fixed order

---
 internal/protoc/compiler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index b806e06..76b6ca0 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -149,6 +149,8 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 	// errors are not text.Failures, these are actual unhandled
 	// system errors from calling protoc, so we short circuit
 	if len(errs) > 0 {
+		// these come in the order in which the commands finished
+		sort.Slice(errs, func(i int, j int) bool { return errs[i].Error() < errs[j].Error() })
 		// I want newlines instead of spaces so not using multierr
 		errStrings := make([]string, 0, len(errs))
 		for _, err := range errs {
-- 
2.43.0


From c4fabcfb1026718d10e63587a998787529d18522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:22 +0000
Subject: [PATCH 20/36] fix: report a field whose oneof index is out of range
 instead of panicking

---
 internal/reflect/reflect.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/reflect/reflect.go b/internal/reflect/reflect.go
index a923bff..b656c20 100644
--- a/internal/reflect/reflect.go
+++ b/internal/reflect/reflect.go
@@ -327,8 +327,11 @@ func newMessage(descriptorProto *descriptor.DescriptorProto) (*reflectv1.Message
 			TypeName: typeName,
 		})
 		if fieldDescriptorProto.OneofIndex != nil {
-			// TODO: super unsafe
-			messageOneof := nameToMessageOneof[descriptorProto.GetOneofDecl()[fieldDescriptorProto.GetOneofIndex()].GetName()]
+			oneofIndex := fieldDescriptorProto.GetOneofIndex()
+			if oneofIndex < 0 || int(oneofIndex) >= len(descriptorProto.GetOneofDecl()) {
+				return nil, fmt.Errorf("oneof index %d of field %s is out of range on message %s", oneofIndex, fieldDescriptorProto.GetName(), descriptorProto.GetName())
+			}
+			messageOneof := nameToMessageOneof[descriptorProto.GetOneofDecl()[oneofIndex].GetName()]
 			messageOneof.FieldNumbers = append(messageOneof.FieldNumbers, fieldDescriptorProto.GetNumber())
 		}
 	}
-- 
2.43.0


From 6f21c558927473660f76b53fee9cb632b87ce2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 21/36] fix: unpack the protoc binary last so that a failed
 download is not used

---
 internal/protoc/downloader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 4c0dcba..610dada 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -34,6 +34,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -233,6 +234,11 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 	if err != nil {
 		return err
 	}
+	// the protoc binary is what checkDownloaded looks for, so it is written
+	// last: a download that did not complete must not be used
+	protocPath := filepath.Join(basePath, "bin", "protoc")
+	isProtoc := func(i int) bool { return filepath.Join(basePath, zipReader.File[i].Name) == protocPath }
+	sort.SliceStable(zipReader.File, func(i int, j int) bool { return !isProtoc(i) && isProtoc(j) })
 	for _, file := range zipReader.File {
 		fileMode := file.Mode()
 		d.logger.Debug("found protobuf file in zip", zap.String("fileName", file.Name), zap.Any("fileMode", fileMode))
-- 
2.43.0


From 2eb990df2ccdaa2fe1458bcb43f02660ff2e72cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 22/36] fix: keep the comment of a single field option when
 formatting

---
 internal/format/base_visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 125ae03..c465abb 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -90,7 +90,8 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 	}
 	if len(options) == 1 {
 		o := options[0]
-		if isSingleValueLiteral(o.Constant) {
+		// the comments of the option need lines of their own
+		if isSingleValueLiteral(o.Constant) && o.Comment == nil && o.InlineComment == nil {
 			if source := o.Constant.SourceRepresentation(); source != "" {
 				v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, source, "];")
 				return
-- 
2.43.0


From 36edfe2898126131e8a93ba2904f1a519c9a2f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:25 +0000
Subject: [PATCH 23/36] fix: format empty option values instead of leaving out
 the option

---
 internal/format/base_visitor.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index c465abb..00f37a6 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -92,10 +92,8 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 		o := options[0]
 		// the comments of the option need lines of their own
 		if isSingleValueLiteral(o.Constant) && o.Comment == nil && o.InlineComment == nil {
-			if source := o.Constant.SourceRepresentation(); source != "" {
-				v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, source, "];")
-				return
-			}
+			v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, singleValueSource(o.Constant), "];")
+			return
 		}
 	}
 	v.P(prefix, fieldType, fieldName, " = ", fieldTag, " [")
@@ -126,11 +124,7 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 		}
 		v.PComment(o.Comment)
 		if isSingleValueLiteral(o.Constant) {
-			// SourceRepresentation() returns an empty string if the literal is empty
-			// if empty, we do not want to print the key or empty value
-			if source := o.Constant.SourceRepresentation(); source != "" {
-				v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, source, suffix)
-			}
+			v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, singleValueSource(o.Constant), suffix)
 		} else if len(o.Constant.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 			v.Failures = append(
 				v.Failures,
@@ -155,10 +149,9 @@ func (v *baseVisitor) pInnerLiteral(name string, literal proto.Literal, suffix s
 		prefix = name + ": "
 	}
 	if isSingleValueLiteral(literal) {
-		// SourceRepresentation() returns an empty string if the literal is empty
-		// if empty, we do not want to print the key or empty value
-		if source := literal.SourceRepresentation(); source != "" {
-			v.P(prefix, source, suffix)
+		// an empty value is the same as none, except in a list
+		if name == "" || literal.SourceRepresentation() != "" {
+			v.P(prefix, singleValueSource(literal), suffix)
 		}
 	} else if len(literal.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 		v.P(prefix, `[`)
@@ -192,6 +185,20 @@ func isSingleValueLiteral(literal proto.Literal) bool {
 	return len(literal.Array) == 0 && len(literal.OrderedMap) == 0
 }
 
+// singleValueSource is the source of a literal for which isSingleValueLiteral holds.
+//
+// SourceRepresentation() returns an empty string for an empty list or message,
+// but without them the file could not be compiled or would mean something else.
+func singleValueSource(literal proto.Literal) string {
+	if source := literal.SourceRepresentation(); source != "" {
+		return source
+	}
+	if literal.Array != nil {
+		return "[]"
+	}
+	return "{}"
+}
+
 func (v *baseVisitor) PEnumField(element *proto.EnumField) {
 	var options []*proto.Option
 	for _, e := range element.Elements {
-- 
2.43.0


From 54c3897c24953aae724fd2ecd531298308cfbc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:42 +0000
Subject: [PATCH 24/36] fix: keep file options that format --fix does not set

---
 internal/format/first_pass_visitor.go | 29 +++++++--------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 773687c..6ace354 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -80,25 +80,32 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 	if v.fix != FixNone && v.Package != nil {
 		if v.goPackageOption == nil {
 			v.goPackageOption = &proto.Option{Name: "go_package"}
+			v.Options = append(v.Options, v.goPackageOption)
 		}
 		if v.javaMultipleFilesOption == nil {
 			v.javaMultipleFilesOption = &proto.Option{Name: "java_multiple_files"}
+			v.Options = append(v.Options, v.javaMultipleFilesOption)
 		}
 		if v.javaOuterClassnameOption == nil {
 			v.javaOuterClassnameOption = &proto.Option{Name: "java_outer_classname"}
+			v.Options = append(v.Options, v.javaOuterClassnameOption)
 		}
 		if v.javaPackageOption == nil {
 			v.javaPackageOption = &proto.Option{Name: "java_package"}
+			v.Options = append(v.Options, v.javaPackageOption)
 		}
 		if v.fix == FixV2 {
 			if v.csharpNamespaceOption == nil {
 				v.csharpNamespaceOption = &proto.Option{Name: "csharp_namespace"}
+				v.Options = append(v.Options, v.csharpNamespaceOption)
 			}
 			if v.objcClassPrefixOption == nil {
 				v.objcClassPrefixOption = &proto.Option{Name: "objc_class_prefix"}
+				v.Options = append(v.Options, v.objcClassPrefixOption)
 			}
 			if v.phpNamespaceOption == nil {
 				v.phpNamespaceOption = &proto.Option{Name: "php_namespace"}
+				v.Options = append(v.Options, v.phpNamespaceOption)
 			}
 		}
 		if v.fix == FixV2 {
@@ -144,21 +151,6 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 				QuoteRune: '"',
 			}
 		}
-		v.Options = append(
-			v.Options,
-			v.goPackageOption,
-			v.javaMultipleFilesOption,
-			v.javaOuterClassnameOption,
-			v.javaPackageOption,
-		)
-		if v.fix == FixV2 {
-			v.Options = append(
-				v.Options,
-				v.csharpNamespaceOption,
-				v.objcClassPrefixOption,
-				v.phpNamespaceOption,
-			)
-		}
 	}
 	if len(v.Options) > 0 {
 		v.POptions(v.Options...)
@@ -205,25 +197,18 @@ func (v *firstPassVisitor) VisitOption(element *proto.Option) {
 		switch element.Name {
 		case "csharp_namespace":
 			v.csharpNamespaceOption = element
-			return
 		case "go_package":
 			v.goPackageOption = element
-			return
 		case "java_multiple_files":
 			v.javaMultipleFilesOption = element
-			return
 		case "java_outer_classname":
 			v.javaOuterClassnameOption = element
-			return
 		case "java_package":
 			v.javaPackageOption = element
-			return
 		case "objc_class_prefix":
 			v.objcClassPrefixOption = element
-			return
 		case "php_namespace":
 			v.phpNamespaceOption = element
-			return
 		}
 	}
 	v.Options = append(v.Options, element)
-- 
2.43.0


From e6e1577a989c48228c0a0af4853cd205fdd2a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:42 +0000
Subject: [PATCH 25/36] fix: compare enum values by name and number, so that
 aliases are not reported as renames

---
 internal/breaking/helpers.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/breaking/helpers.go b/internal/breaking/helpers.go
index 8bdd6c8..5e533ca 100644
--- a/internal/breaking/helpers.go
+++ b/internal/breaking/helpers.go
@@ -215,10 +215,16 @@ func forEachEnumValuePair(
 		from,
 		to,
 		func(addFailure func(*text.Failure), fromEnum *extract.Enum, toEnum *extract.Enum) error {
-			fromValueNumberToValue := fromEnum.ValueNumberToValue()
+			toValueNameToValue := toEnum.ValueNameToValue()
 			toValueNumberToValue := toEnum.ValueNumberToValue()
-			for fromValueNumber, fromValue := range fromValueNumberToValue {
-				if toValue, ok := toValueNumberToValue[fromValueNumber]; ok {
+			for fromValueName, fromValue := range fromEnum.ValueNameToValue() {
+				fromValueNumber := fromValue.ProtoMessage().Number
+				// with allow_alias, several values can have the same number
+				toValue, ok := toValueNameToValue[fromValueName]
+				if !ok || toValue.ProtoMessage().Number != fromValueNumber {
+					toValue, ok = toValueNumberToValue[fromValueNumber]
+				}
+				if ok {
 					if err := f(addFailure, fromValue, toValue); err != nil {
 						return err
 					}
-- 
2.43.0


From 7ae81f51d83cd7fd51f13f0acd01a3421720e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:01 +0000
Subject: [PATCH 26/36] fix: report unequal elements of one name in a package
 instead of picking one at random

---
 internal/reflect/reflect.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/reflect/reflect.go b/internal/reflect/reflect.go
index b656c20..d53ccc6 100644
--- a/internal/reflect/reflect.go
+++ b/internal/reflect/reflect.go
@@ -169,6 +169,11 @@ func populateEnums(
 		}
 	}
 	sort.Slice(pkg.Enums, func(i int, j int) bool { return pkg.Enums[i].Name < pkg.Enums[j].Name })
+	for i := 1; i < len(pkg.Enums); i++ {
+		if pkg.Enums[i-1].Name == pkg.Enums[i].Name && !proto.Equal(pkg.Enums[i-1], pkg.Enums[i]) {
+			return fmt.Errorf("unequal enums for %s in package %s", pkg.Enums[i].Name, pkg.Name)
+		}
+	}
 	return nil
 }
 
@@ -187,6 +192,11 @@ func populateMessages(
 		}
 	}
 	sort.Slice(pkg.Messages, func(i int, j int) bool { return pkg.Messages[i].Name < pkg.Messages[j].Name })
+	for i := 1; i < len(pkg.Messages); i++ {
+		if pkg.Messages[i-1].Name == pkg.Messages[i].Name && !proto.Equal(pkg.Messages[i-1], pkg.Messages[i]) {
+			return fmt.Errorf("unequal messages for %s in package %s", pkg.Messages[i].Name, pkg.Name)
+		}
+	}
 	return nil
 }
 
@@ -205,6 +215,11 @@ func populateServices(
 		}
 	}
 	sort.Slice(pkg.Services, func(i int, j int) bool { return pkg.Services[i].Name < pkg.Services[j].Name })
+	for i := 1; i < len(pkg.Services); i++ {
+		if pkg.Services[i-1].Name == pkg.Services[i].Name && !proto.Equal(pkg.Services[i-1], pkg.Services[i]) {
+			return fmt.Errorf("unequal services for %s in package %s", pkg.Services[i].Name, pkg.Name)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 5aacf1821fdc88e388d0ce537cabb1ee73097d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:11 +0000
Subject: [PATCH 27/36] fix: reject conflicting names for one create package
 directory

---
 internal/settings/config_provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 22b1b96..1c57f3d 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -287,7 +287,11 @@ func externalConfigToConfig(develMode bool, e ExternalConfig, dirPath string) (C
 		if filepath.IsAbs(relDirPath) {
 			return Config{}, fmt.Errorf("directory for create package must be relative: %s", relDirPath)
 		}
-		createDirPathToBasePackage[filepath.Clean(filepath.Join(dirPath, relDirPath))] = basePackage
+		absDirPath := filepath.Clean(filepath.Join(dirPath, relDirPath))
+		if existing, ok := createDirPathToBasePackage[absDirPath]; ok && existing != basePackage {
+			return Config{}, fmt.Errorf("create packages %s and %s have the same directory: %s", existing, basePackage, relDirPath)
+		}
+		createDirPathToBasePackage[absDirPath] = basePackage
 	}
 	// to make testing easier
 	if len(createDirPathToBasePackage) == 0 {
-- 
2.43.0


From 2438c16929dfad8e137fa4ed512c372bbbc36e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:29 +0000
Subject: [PATCH 28/36] fix: match the files protoc names by whole path
 components

---
 internal/protoc/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 76b6ca0..b06e530 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -878,7 +878,7 @@ func getDisplayFilePath(cmdMeta *cmdMeta, match string) (string, error) {
 	for _, protoFile := range cmdMeta.protoFiles {
 		// if the suffix is the file name, this is a better display name
 		// we don't handle the reverse case, ie display path is a suffix of match
-		if strings.HasSuffix(protoFile.DisplayPath, match) {
+		if protoFile.DisplayPath == match || strings.HasSuffix(protoFile.DisplayPath, string(os.PathSeparator)+match) {
 			// if there is more than one match, we don't know what to do
 			if matchingFile != "" {
 				return "", fmt.Errorf("duplicate matching file: %s", matchingFile)
-- 
2.43.0


From e386f0eed82e5bc9170af91becfb3aaf5f5110b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:35 +0000
Subject: [PATCH 29/36] fix: keep file, line and column of protoc errors whose
 message contains a colon

---
 internal/protoc/compiler.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index b06e530..41d01e5 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -76,6 +76,8 @@ var (
 	optionValueRegexp                 = regexp.MustCompile("^(.*): Error while parsing option value for (.*)$")
 	programNotFoundRegexp             = regexp.MustCompile("protoc-gen-(.*): program not found or is not executable$")
 	firstEnumValueZeroRegexp          = regexp.MustCompile("^(.*): The first enum value must be zero in proto3.$")
+	// any other message that contains a colon
+	positionRegexp = regexp.MustCompile(`^([^:]+):(\d+):(\d+): (.+)$`)
 )
 
 type compiler struct {
@@ -782,6 +784,22 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 				Message:  matches[4],
 			}
 		}
+		if matches := positionRegexp.FindStringSubmatch(protocLine); len(matches) > 4 {
+			line, err := strconv.Atoi(matches[2])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(protocLine)
+			}
+			column, err := strconv.Atoi(matches[3])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(protocLine)
+			}
+			return &text.Failure{
+				Filename: bestFilePath(cmdMeta, matches[1]),
+				Line:     line,
+				Column:   column,
+				Message:  matches[4],
+			}
+		}
 		if matches := jsonCamelCaseRegexp.FindStringSubmatch(protocLine); len(matches) > 2 {
 			return &text.Failure{
 				Filename: bestFilePath(cmdMeta, matches[1]),
-- 
2.43.0


From f0ef6d0ad3ab2588bf647acb48d9ea30d5fec4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 30/36] fix: print failures that belong to no file when a
 single file is given

---
 internal/exec/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 7da6491..fcb2d7e 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -1149,7 +1149,8 @@ func (r *runner) printFailuresForErrorFormat(errorFormat string, filename string
 	for _, failure := range failures {
 		shouldPrint := false
 		if meta != nil {
-			if meta.SingleFilename == "" || meta.SingleFilename == failure.Filename {
+			// failures without a filename are not about another file
+			if meta.SingleFilename == "" || failure.Filename == "" || meta.SingleFilename == failure.Filename {
 				shouldPrint = true
 			} else if meta.SingleFilename != "" {
 				// TODO: the compiler may not return the rel path due to logic in bestFilePath
-- 
2.43.0


From 8c699e30b8b8ccd5f6076b5085c7464204ba2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:16 +0000
Subject: [PATCH 31/36] fix: let create apply --config-data to the current
 directory, as documented

---
 internal/create/handler.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 02e8cfd..f5b2a68 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -285,15 +285,19 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 }
 
 func (h *handler) getConfig(filePath string) (settings.Config, error) {
+	if h.configData != "" {
+		// the data acts as a configuration file in the current directory
+		absWorkDirPath, err := filepath.Abs(".")
+		if err != nil {
+			return settings.Config{}, err
+		}
+		return h.configProvider.GetForData(absWorkDirPath, h.configData)
+	}
 	absFilePath, err := filepath.Abs(filePath)
 	if err != nil {
 		return settings.Config{}, err
 	}
-	absDirPath := filepath.Dir(absFilePath)
-	if h.configData != "" {
-		return h.configProvider.GetForData(absDirPath, h.configData)
-	}
-	return h.configProvider.GetForDir(absDirPath)
+	return h.configProvider.GetForDir(filepath.Dir(absFilePath))
 }
 
 func getPkgFromRel(rel string, basePkg string, defaultPackage string) string {
-- 
2.43.0


From bb71d51864d067a0dee32a1c3b0c252ca500f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:39 +0000
Subject: [PATCH 32/36] fix: an extend is not a message to the rules on request
 and response types

---
 internal/lint/check_request_response_types_after_service.go | 4 ++++
 internal/lint/check_request_response_types_in_same_file.go  | 5 +++++
 internal/lint/check_request_response_types_only_in_file.go  | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/internal/lint/check_request_response_types_after_service.go b/internal/lint/check_request_response_types_after_service.go
index 63d1401..5e6ea68 100644
--- a/internal/lint/check_request_response_types_after_service.go
+++ b/internal/lint/check_request_response_types_after_service.go
@@ -50,6 +50,10 @@ func (v *requestResponseTypesAfterServiceVisitor) OnStart(*FileDescriptor) error
 }
 
 func (v *requestResponseTypesAfterServiceVisitor) VisitMessage(message *proto.Message) {
+	// extends have the name of the message they extend, but are not messages
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_request_response_types_in_same_file.go b/internal/lint/check_request_response_types_in_same_file.go
index f872894..d629c92 100644
--- a/internal/lint/check_request_response_types_in_same_file.go
+++ b/internal/lint/check_request_response_types_in_same_file.go
@@ -59,6 +59,11 @@ func (v *requestResponseTypesInSameFileVisitor) VisitMessage(message *proto.Mess
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// extends have the name of the message they extend, but are not messages
+	if message.IsExtend {
+		return
+	}
+
 	if v.messageTypes == nil {
 		v.messageTypes = make(map[string]struct{})
 	}
diff --git a/internal/lint/check_request_response_types_only_in_file.go b/internal/lint/check_request_response_types_only_in_file.go
index 7c2433f..06ca3ba 100644
--- a/internal/lint/check_request_response_types_only_in_file.go
+++ b/internal/lint/check_request_response_types_only_in_file.go
@@ -59,6 +59,10 @@ func (v *requestResponseTypesOnlyInFileVisitor) VisitEnum(enum *proto.Enum) {
 }
 
 func (v *requestResponseTypesOnlyInFileVisitor) VisitMessage(message *proto.Message) {
+	// extends have the name of the message they extend, but are not messages
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
-- 
2.43.0


From eb575b0a41bd4683981cd6e0fffcb11fcc67b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 33/36] fix: recognise durations and timestamps written with a
 leading dot

---
 internal/lint/check_message_fields_duration.go | 2 +-
 internal/lint/check_message_fields_time.go     | 2 +-
 internal/lint/check_wkt_duration_suffix.go     | 2 +-
 internal/lint/check_wkt_timestamp_suffix.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/lint/check_message_fields_duration.go b/internal/lint/check_message_fields_duration.go
index 81785cd..28fa63c 100644
--- a/internal/lint/check_message_fields_duration.go
+++ b/internal/lint/check_message_fields_duration.go
@@ -64,7 +64,7 @@ func (v messageFieldsDurationVisitor) VisitOneofField(field *proto.OneOfField) {
 // no map fields on purpose
 
 func (v messageFieldsDurationVisitor) visitField(field *proto.Field) {
-	if strings.Contains(field.Name, "duration") && field.Type != "google.protobuf.Duration" {
+	if strings.Contains(field.Name, "duration") && strings.TrimPrefix(field.Type, ".") != "google.protobuf.Duration" {
 		v.AddFailuref(field.Position, `Field %q must be a google.protobuf.Duration.`, field.Name)
 	}
 }
diff --git a/internal/lint/check_message_fields_time.go b/internal/lint/check_message_fields_time.go
index 9fa2879..6da8b78 100644
--- a/internal/lint/check_message_fields_time.go
+++ b/internal/lint/check_message_fields_time.go
@@ -64,7 +64,7 @@ func (v messageFieldsTimeVisitor) VisitOneofField(field *proto.OneOfField) {
 // no map fields on purpose
 
 func (v messageFieldsTimeVisitor) visitField(field *proto.Field) {
-	if strings.Contains(field.Name, "time") && field.Type != "google.protobuf.Timestamp" {
+	if strings.Contains(field.Name, "time") && strings.TrimPrefix(field.Type, ".") != "google.protobuf.Timestamp" {
 		v.AddFailuref(field.Position, `Field %q must be a google.protobuf.Timestamp.`, field.Name)
 	}
 }
diff --git a/internal/lint/check_wkt_duration_suffix.go b/internal/lint/check_wkt_duration_suffix.go
index be350fd..c93300a 100644
--- a/internal/lint/check_wkt_duration_suffix.go
+++ b/internal/lint/check_wkt_duration_suffix.go
@@ -62,7 +62,7 @@ func (v wktDurationSuffixVisitor) VisitOneofField(field *proto.OneOfField) {
 }
 
 func (v wktDurationSuffixVisitor) visitField(field *proto.Field) {
-	if field.Type == "google.protobuf.Duration" && !(field.Name == "duration" || strings.HasSuffix(field.Name, "_duration")) {
+	if strings.TrimPrefix(field.Type, ".") == "google.protobuf.Duration" && !(field.Name == "duration" || strings.HasSuffix(field.Name, "_duration")) {
 		v.AddFailuref(field.Position, `Field %q of type "google.protobuf.Duration" must be "duration" or end in "_duration".`, field.Name)
 	}
 }
diff --git a/internal/lint/check_wkt_timestamp_suffix.go b/internal/lint/check_wkt_timestamp_suffix.go
index 4fbfb29..3bfb77d 100644
--- a/internal/lint/check_wkt_timestamp_suffix.go
+++ b/internal/lint/check_wkt_timestamp_suffix.go
@@ -62,7 +62,7 @@ func (v wktTimestampSuffixVisitor) VisitOneofField(field *proto.OneOfField) {
 }
 
 func (v wktTimestampSuffixVisitor) visitField(field *proto.Field) {
-	if field.Type == "google.protobuf.Timestamp" && !(field.Name == "time" || strings.HasSuffix(field.Name, "_time")) {
+	if strings.TrimPrefix(field.Type, ".") == "google.protobuf.Timestamp" && !(field.Name == "time" || strings.HasSuffix(field.Name, "_time")) {
 		v.AddFailuref(field.Position, `Field %q of type "google.protobuf.Timestamp" must be "time" or end in "_time".`, field.Name)
 	}
 }
-- 
2.43.0


From c61c26d544122a29cf92e55d2145c1b7db21844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:09 +0000
Subject: [PATCH 34/36] fix: look at the first letter of a comment, not at its
 first byte

---
 internal/lint/lint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index af37e96..2333b4b 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -27,6 +27,7 @@ import (
 	"path/filepath"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/emicklei/proto"
 	"github.com/uber/prototool/internal/file"
@@ -547,7 +548,8 @@ func commentStartsWithUppercaseLetter(comment *proto.Comment) bool {
 	if firstLine == "" {
 		return false
 	}
-	return unicode.IsUpper(rune(firstLine[0])) || unicode.IsDigit(rune(firstLine[0]))
+	first, _ := utf8.DecodeRuneInString(firstLine)
+	return unicode.IsUpper(first) || unicode.IsDigit(first)
 }
 
 func commentContainsPeriod(comment *proto.Comment) bool {
-- 
2.43.0


From 7a2788fae97bffb4226c019fee2026aa19dcbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:38 +0000
Subject: [PATCH 35/36] fix: format --fix no longer repeats a file header
 written right above the syntax

---
 internal/format/first_pass_visitor.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 6ace354..75cd006 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -58,13 +58,15 @@ func newFirstPassVisitor(filename string, fix int, fileHeader string, javaPackag
 }
 
 func (v *firstPassVisitor) Do() []*text.Failure {
-	if v.fix != FixNone && v.fileHeader != "" {
+	replaceHeader := v.fix != FixNone && v.fileHeader != ""
+	if replaceHeader {
 		v.P(v.fileHeader)
 		v.P()
 	}
 	if v.Syntax != nil {
-		v.PComment(v.Syntax.Comment)
-		if v.Syntax.Comment != nil {
+		// without an empty line in between, the header to replace is the comment of the syntax
+		if v.Syntax.Comment != nil && !replaceHeader {
+			v.PComment(v.Syntax.Comment)
 			// special case, we add a newline in between the first comment and syntax
 			// to separate licenses, file descriptions, etc.
 			v.P()
-- 
2.43.0


From 6570ce2dbe290ebcfd70d4bd4fa29473f2788f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:28 +0000
Subject: [PATCH 36/36] fix: a message with only a group is not an empty
 message

---
 .../check_messages_not_empty_except_request_response_types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/lint/check_messages_not_empty_except_request_response_types.go b/internal/lint/check_messages_not_empty_except_request_response_types.go
index a9dc45b..2253051 100644
--- a/internal/lint/check_messages_not_empty_except_request_response_types.go
+++ b/internal/lint/check_messages_not_empty_except_request_response_types.go
@@ -99,6 +99,10 @@ func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitMapField(field
 	v.curFieldCount++
 }
 
+func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitGroup(group *proto.Group) {
+	v.curFieldCount++
+}
+
 func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitService(service *proto.Service) {
 	for _, child := range service.Elements {
 		child.Accept(v)
-- 
2.43.0


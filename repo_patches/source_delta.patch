From 2c62f8a611c93bee32de6f7e336a1dcb58a5f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:16 +0000
Subject: [PATCH 01/30] fix: don't panic when a json lockfile is just `null`

---
 pkg/lockfile/parse-bun-lock.go      | 2 +-
 pkg/lockfile/parse-composer-lock.go | 2 +-
 pkg/lockfile/parse-npm-lock.go      | 4 ++--
 pkg/lockfile/parse-nuget-lock.go    | 4 ++--
 pkg/lockfile/parse-pipenv-lock.go   | 2 +-
 pkg/lockfile/parse-renv-lock.go     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index e4857d8..9aaa34f 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -49,7 +49,7 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 }
 
 func ParseBunLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *BunLockfile
+	var parsedLockfile BunLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-composer-lock.go b/pkg/lockfile/parse-composer-lock.go
index 55d0740..d840c5d 100644
--- a/pkg/lockfile/parse-composer-lock.go
+++ b/pkg/lockfile/parse-composer-lock.go
@@ -34,7 +34,7 @@ func extractCommit(pkg ComposerPackage) string {
 }
 
 func ParseComposerLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *ComposerLock
+	var parsedLockfile ComposerLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1ed5d65..d741b0a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -152,7 +152,7 @@ func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
 }
 
 func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NpmLockfile
+	var parsedLockfile NpmLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -166,5 +166,5 @@ func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
 	}
 
-	return pkgDetailsMapToSlice(parseNpmLock(*parsedLockfile)), nil
+	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
 }
diff --git a/pkg/lockfile/parse-nuget-lock.go b/pkg/lockfile/parse-nuget-lock.go
index 5456526..79681ab 100644
--- a/pkg/lockfile/parse-nuget-lock.go
+++ b/pkg/lockfile/parse-nuget-lock.go
@@ -51,7 +51,7 @@ func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {
 var ErrNuGetUnsupportedLockfileVersion = errors.New("unsupported lockfile version")
 
 func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NuGetLockfile
+	var parsedLockfile NuGetLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -69,5 +69,5 @@ func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, ErrNuGetUnsupportedLockfileVersion)
 	}
 
-	return parseNuGetLock(*parsedLockfile)
+	return parseNuGetLock(parsedLockfile)
 }
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 47ecbf7..1ecd5d4 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -18,7 +18,7 @@ type PipenvLock struct {
 const PipenvEcosystem = PipEcosystem
 
 func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *PipenvLock
+	var parsedLockfile PipenvLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-renv-lock.go b/pkg/lockfile/parse-renv-lock.go
index e44c29a..c286c96 100644
--- a/pkg/lockfile/parse-renv-lock.go
+++ b/pkg/lockfile/parse-renv-lock.go
@@ -19,7 +19,7 @@ type RenvLockfile struct {
 const CRANEcosystem Ecosystem = "CRAN"
 
 func ParseRenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *RenvLockfile
+	var parsedLockfile RenvLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
-- 
2.43.0


From 48b98c2409282dc1679db1ae46c5b1693913000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:16 +0000
Subject: [PATCH 02/30] fix: don't panic when a package in a bun.lock is an
 empty tuple

---
 pkg/lockfile/parse-bun-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index 9aaa34f..9d3db9b 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -19,6 +19,10 @@ const BunEcosystem = NpmEcosystem
 // structurePackageDetails returns the name, version, and commit of a package
 // specified as a tuple in a bun.lock
 func structurePackageDetails(pkg []any) (string, string, string) {
+	if len(pkg) == 0 {
+		return "", "", ""
+	}
+
 	str, ok := pkg[0].(string)
 
 	if !ok {
-- 
2.43.0


From 169d80cd1b152e95e35f44f939b962b53cc91690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:16 +0000
Subject: [PATCH 03/30] fix: don't panic when an npm alias does not have a
 version

---
 pkg/lockfile/parse-npm-lock.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index d741b0a..42889b6 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -67,10 +67,13 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 			finalVersion = ""
 		} else {
 			// use the name of the underlying package rather than the alias
-			if strings.HasPrefix(detail.Version, "npm:") {
-				i := strings.LastIndex(detail.Version, "@")
-				name = detail.Version[4:i]
-				finalVersion = detail.Version[i+1:]
+			if aliased, ok := strings.CutPrefix(detail.Version, "npm:"); ok {
+				name, finalVersion = aliased, ""
+
+				// an "@" at the very start is the scope of the package
+				if i := strings.LastIndex(aliased, "@"); i > 0 {
+					name, finalVersion = aliased[:i], aliased[i+1:]
+				}
 			}
 
 			commit = tryExtractCommit(detail.Version)
-- 
2.43.0


From 6099e204127f6840b8d8f887997c4a513d9478e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:16 +0000
Subject: [PATCH 04/30] fix: don't assume all versions in a Pipfile.lock start
 with `==`

---
 pkg/lockfile/parse-pipenv-lock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 1ecd5d4..e06d63b 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strings"
 )
 
 type PipenvPackage struct {
@@ -39,7 +40,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
@@ -54,7 +55,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
-- 
2.43.0


From 6b1fcec5f46b063e9af6efd4eb02c16a302fb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:16 +0000
Subject: [PATCH 05/30] fix: don't panic when a scoped pnpm dependency path has
 no name

---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 8372054..a512b2e 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -98,6 +98,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 	parts = parts[1:]
 
 	if strings.HasPrefix(parts[0], "@") {
+		if len(parts) == 1 {
+			return "", "", errInvalidPackagePath
+		}
+
 		name = strings.Join(parts[:2], "/")
 		parts = parts[2:]
 	} else {
-- 
2.43.0


From 93c6b10581b87af3cf869c3c4e0047401193d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 06/30] fix: don't apply go.mod replacements to other
 replacements

---
 pkg/lockfile/parse-go-lock.go | 68 ++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/pkg/lockfile/parse-go-lock.go b/pkg/lockfile/parse-go-lock.go
index 31a79e6..c984027 100644
--- a/pkg/lockfile/parse-go-lock.go
+++ b/pkg/lockfile/parse-go-lock.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"golang.org/x/mod/modfile"
+	"golang.org/x/mod/module"
 )
 
 const GoEcosystem Ecosystem = "Go"
@@ -20,6 +21,36 @@ func deduplicatePackages(packages map[string]PackageDetails) map[string]PackageD
 	return details
 }
 
+// resolveGoReplacement finds what the given module should be replaced with, if anything.
+//
+// Replacements always apply to the module that is actually required rather than
+// to the result of another replacement, and a replacement for a specific version
+// takes precedence over one for all versions of the module
+func resolveGoReplacement(mod module.Version, replaces []*modfile.Replace) module.Version {
+	resolved := mod
+	isSpecific := false
+
+	for _, replace := range replaces {
+		if replace.Old.Path != mod.Path {
+			continue
+		}
+
+		// If the left version is omitted, all versions of the module are replaced.
+		if replace.Old.Version == "" && !isSpecific {
+			resolved = replace.New
+		}
+
+		// If a version is present on the left side of the arrow (=>),
+		// only that specific version of the module is replaced
+		if replace.Old.Version != "" && replace.Old.Version == mod.Version {
+			resolved = replace.New
+			isSpecific = true
+		}
+	}
+
+	return resolved
+}
+
 func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -36,44 +67,15 @@ func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 	packages := map[string]PackageDetails{}
 
 	for _, require := range parsedLockfile.Require {
+		mod := resolveGoReplacement(require.Mod, parsedLockfile.Replace)
+
 		packages[require.Mod.Path+"@"+require.Mod.Version] = PackageDetails{
-			Name:      require.Mod.Path,
-			Version:   strings.TrimPrefix(require.Mod.Version, "v"),
+			Name:      mod.Path,
+			Version:   strings.TrimPrefix(mod.Version, "v"),
 			Ecosystem: GoEcosystem,
 			CompareAs: GoEcosystem,
 		}
 	}
 
-	for _, replace := range parsedLockfile.Replace {
-		var replacements []string
-
-		if replace.Old.Version == "" {
-			// If the left version is omitted, all versions of the module are replaced.
-			for k, pkg := range packages {
-				if pkg.Name == replace.Old.Path {
-					replacements = append(replacements, k)
-				}
-			}
-		} else {
-			// If a version is present on the left side of the arrow (=>),
-			// only that specific version of the module is replaced
-			s := replace.Old.Path + "@" + replace.Old.Version
-
-			// A `replace` directive has no effect if the module version on the left side is not required.
-			if _, ok := packages[s]; ok {
-				replacements = []string{s}
-			}
-		}
-
-		for _, replacement := range replacements {
-			packages[replacement] = PackageDetails{
-				Name:      replace.New.Path,
-				Version:   strings.TrimPrefix(replace.New.Version, "v"),
-				Ecosystem: GoEcosystem,
-				CompareAs: GoEcosystem,
-			}
-		}
-	}
-
 	return pkgDetailsMapToSlice(deduplicatePackages(packages)), nil
 }
-- 
2.43.0


From cb9e007d3012be2528a25f0fce66b4be79b8d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 07/30] fix: use the managed version for maven dependencies
 without a version

---
 pkg/lockfile/parse-maven-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 671a53f..b62233d 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -130,6 +130,11 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	for _, lockPackage := range parsedLockfile.Dependencies {
 		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
 
+		// dependencies without a version use the managed version, if there is one
+		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+			continue
+		}
+
 		details[finalName] = PackageDetails{
 			Name:      finalName,
 			Version:   lockPackage.ResolveVersion(*parsedLockfile),
-- 
2.43.0


From 770e18efcc7503b41ddd3988b506aa0b09e841d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 08/30] fix: check all ranges of an advisory even if some are
 for git

---
 pkg/database/osv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 520ecca..01bddd2 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -139,7 +139,7 @@ type Affects []AffectsRange
 func (a Affects) affectsVersion(pkg internal.PackageDetails) bool {
 	for _, r := range a {
 		if r.Type != TypeEcosystem && r.Type != TypeSemver {
-			return false
+			continue
 		}
 		if r.containsVersion(pkg) {
 			return true
-- 
2.43.0


From 3836ace826a3c24f0359b9844ddc6245b7256e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 09/30] fix: don't panic when versions cannot be compared

---
 pkg/database/osv.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 01bddd2..842fd52 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -93,7 +93,13 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return false
 	}
 
-	vp := semantic.MustParse(pkg.Version, string(pkg.CompareAs))
+	vp, err := semantic.Parse(pkg.Version, string(pkg.CompareAs))
+
+	if err != nil {
+		_, _ = fmt.Fprintf(os.Stderr, "Could not compare %s@%s: %v\n", pkg.Name, pkg.Version, err)
+
+		return false
+	}
 
 	sort.Slice(ar.Events, func(i, j int) bool {
 		a := ar.Events[i]
@@ -108,7 +114,13 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		}
 
 		// Ignore errors as we assume the version is correct
-		order, _ := semantic.MustParse(a.version(), string(pkg.CompareAs)).CompareStr(b.version())
+		av, err := semantic.Parse(a.version(), string(pkg.CompareAs))
+
+		if err != nil {
+			return false
+		}
+
+		order, _ := av.CompareStr(b.version())
 
 		return order < 0
 	})
-- 
2.43.0


From ae7b4c5fd6ab7c720da440a04f9b326eb27b3916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 10/30] fix: don't panic if the db host says we have an up to
 date cache when we don't

---
 pkg/database/zip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4d7f8f6..9a87ebe 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -88,7 +88,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	defer resp.Body.Close()
 
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cache != nil {
 		db.UpdatedAt = cache.Date
 
 		return cache.Body, nil
-- 
2.43.0


From e8d201307f0877783cf343330dfe050685e8f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 11/30] fix: don't use caches that could only be partially
 parsed

---
 pkg/database/zip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 9a87ebe..df3f63a 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -57,6 +57,9 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 		if err != nil {
 			_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\n", cachePath, err)
+
+			// the cache might have been partially populated, so don't use it at all
+			cache = nil
 		}
 	}
 
-- 
2.43.0


From dfe93ddcb56cc388e359ecc497ff18cc0353a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 12/30] fix: don't cache responses that are not archives

---
 pkg/database/zip.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index df3f63a..74a64fd 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -107,6 +107,11 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
 	}
 
+	// make sure we don't replace a usable cache with something that isn't an archive
+	if _, err := zip.NewReader(bytes.NewReader(body), int64(len(body))); err != nil {
+		return nil, fmt.Errorf("could not read OSV database archive: %w", err)
+	}
+
 	etag := resp.Header.Get("ETag")
 	date := resp.Header.Get("Date")
 
-- 
2.43.0


From b2658c464ecd4eed397c8ee3ec5f7f23f2dba2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 13/30] fix: don't load osvs from directories that share a
 prefix with the working directory

---
 pkg/database/zip.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 74a64fd..4bbd934 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -194,9 +194,15 @@ func (db *ZipDB) load(pkgNames []string) error {
 		return fmt.Errorf("could not read OSV database archive: %w", err)
 	}
 
+	workingDirectory := strings.TrimSuffix(db.WorkingDirectory, "/")
+
+	if workingDirectory != "" {
+		workingDirectory += "/"
+	}
+
 	// Read all the files from the zip archive
 	for _, zipFile := range zipReader.File {
-		if !strings.HasPrefix(zipFile.Name, db.WorkingDirectory) {
+		if !strings.HasPrefix(zipFile.Name, workingDirectory) {
 			continue
 		}
 
-- 
2.43.0


From 8fd65d232251b22dbf36083729c0a728c960332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:14 +0000
Subject: [PATCH 14/30] fix: handle markers, extras, and multiple specifiers
 when parsing requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 33 ++++++++++----------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 46023fb..735d344 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -16,33 +16,26 @@ const PipEcosystem Ecosystem = "PyPI"
 //
 //	https://pip.pypa.io/en/stable/reference/requirements-file-format/#example
 func parseLine(line string) PackageDetails {
-	var constraint string
-	name := line
+	// neither environment markers nor extras are relevant to us
+	line, _, _ = strings.Cut(line, ";")
+	line = cachedregexp.MustCompile(`\[[^]]*]`).ReplaceAllString(line, "")
 
+	name := line
+	specifiers := ""
 	version := "0.0.0"
 
-	if strings.Contains(line, "==") {
-		constraint = "=="
-	}
-
-	if strings.Contains(line, ">=") {
-		constraint = ">="
+	if i := strings.IndexAny(line, " \t@(<>=!~"); i != -1 {
+		name, specifiers = line[:i], line[i:]
 	}
 
-	if strings.Contains(line, "~=") {
-		constraint = "~="
-	}
-
-	if strings.Contains(line, "!=") {
-		constraint = "!="
-	}
+	for specifier := range strings.SplitSeq(specifiers, ",") {
+		// the other operators don't tell us what the lowest possible version is
+		matched := cachedregexp.MustCompile(`^[\s(]*(?:===?|>=|~=)\s*([^\s)]+)`).FindStringSubmatch(specifier)
 
-	if constraint != "" {
-		unprocessedName, unprocessedVersion, _ := strings.Cut(line, constraint)
-		name = strings.TrimSpace(unprocessedName)
+		if matched != nil {
+			version = matched[1]
 
-		if constraint != "!=" {
-			version, _, _ = strings.Cut(strings.TrimSpace(unprocessedVersion), " ")
+			break
 		}
 	}
 
-- 
2.43.0


From aa6af2f061341583af4061a6493b47ecd612d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:35 +0000
Subject: [PATCH 15/30] fix: normalize packages when looking for advisories
 that affect them

---
 main.go                   | 5 ++++-
 pkg/database/mem-check.go | 3 ++-
 pkg/database/osv.go       | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 21ef194..59b3e81 100644
--- a/main.go
+++ b/main.go
@@ -600,7 +600,10 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	pkgSet := make(map[string]struct{})
 	for _, p := range files {
 		for _, pkg := range p.lockf.Packages {
-			pkgSet[pkg.Name] = struct{}{}
+			// advisories are always compared using their normalized package name
+			name := database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+
+			pkgSet[name] = struct{}{}
 		}
 	}
 	allPackages := make([]string, 0, len(pkgSet))
diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 9cad474..ee56953 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,8 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(pkg.Ecosystem) + "-" + pkg.Name
+	p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
+	hash := string(p.NormalizedEcosystem()) + "-" + p.NormalizedName()
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 842fd52..78ece7b 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -294,9 +294,11 @@ func areEcosystemsEqual(a, b internal.Ecosystem) bool {
 }
 
 func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
+	name := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+
 	for _, affected := range osv.Affected {
 		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&
-			affected.Package.NormalizedName() == pkg.Name {
+			affected.Package.NormalizedName() == name {
 			if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
 				_, _ = fmt.Fprintf(
 					os.Stderr,
-- 
2.43.0


From d97e841690b651c6d2c2d00a1c6394262eab8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:35 +0000
Subject: [PATCH 16/30] fix: don't share the config between lockfiles when
 there is no config file

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 59b3e81..8f59977 100644
--- a/main.go
+++ b/main.go
@@ -445,8 +445,8 @@ func readAllLockfiles(
 			}
 
 			config = &con
-		} else if config.FilePath != "" {
-			// if there's a global config, then copy it - otherwise all lockfiles
+		} else {
+			// copy the global config (even if it's empty) - otherwise all lockfiles
 			// will hold a reference to the same config, which can result in configs
 			// for ecosystem-specific databases being used unnecessarily for lockfiles
 			// that don't have any packages that are part of that ecosystem
-- 
2.43.0


From 4ec4a27df718db1d315fd97f4d2d9780f47690bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:35 +0000
Subject: [PATCH 17/30] fix: ensure packages are always in the same order

---
 pkg/lockfile/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/lockfile/parse.go b/pkg/lockfile/parse.go
index ec3e6a4..acfa1f2 100644
--- a/pkg/lockfile/parse.go
+++ b/pkg/lockfile/parse.go
@@ -135,11 +135,15 @@ func Parse(pathToLockfile string, parseAs string) (Lockfile, error) {
 	packages, err := parser(pathToLockfile)
 
 	sort.Slice(packages, func(i, j int) bool {
-		if packages[i].Name == packages[j].Name {
+		if packages[i].Name != packages[j].Name {
+			return packages[i].Name < packages[j].Name
+		}
+
+		if packages[i].Version != packages[j].Version {
 			return packages[i].Version < packages[j].Version
 		}
 
-		return packages[i].Name < packages[j].Name
+		return packages[i].Commit < packages[j].Commit
 	})
 
 	return Lockfile{
-- 
2.43.0


From e36c3856913eeba76428dad11d39fb1b23fda8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 18/30] fix: don't remove ignores from configs based on
 incomplete results

---
 main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 8f59977..0d67223 100644
--- a/main.go
+++ b/main.go
@@ -733,7 +733,12 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	}
 
 	if *updateConfigIgnores {
-		writeUpdatedConfigs(r, vulnsPerConfig)
+		// without complete results, we can't tell which ignores are no longer needed
+		if r.HasErrored() {
+			r.PrintErrorf("Configs have not been updated as not everything could be checked\n")
+		} else {
+			writeUpdatedConfigs(r, vulnsPerConfig)
+		}
 	}
 
 	if r.HasErrored() && exitCode == 0 {
-- 
2.43.0


From 33c47b3faa8d8a2835c68cbd538bf3a24631adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:34 +0000
Subject: [PATCH 19/30] fix: don't use caches that do not have an archive

---
 pkg/database/zip.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4bbd934..7ea5227 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -48,6 +48,12 @@ func (db *ZipDB) cachePath() string {
 	return filepath.Join(os.TempDir(), fileName)
 }
 
+func isZip(body []byte) bool {
+	_, err := zip.NewReader(bytes.NewReader(body), int64(len(body)))
+
+	return err == nil
+}
+
 func (db *ZipDB) fetchZip() ([]byte, error) {
 	var cache *Cache
 	cachePath := db.cachePath()
@@ -61,6 +67,14 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 			// the cache might have been partially populated, so don't use it at all
 			cache = nil
 		}
+
+		// likewise if what has been cached is not actually an archive, otherwise
+		// we'd be stuck with it until the archive is next modified by the host
+		if cache != nil && !isZip(cache.Body) {
+			_, _ = fmt.Fprintf(os.Stderr, "Ignoring cache from %s as it does not have an archive\n", cachePath)
+
+			cache = nil
+		}
 	}
 
 	if db.Offline {
-- 
2.43.0


From e89edeb97289b5be8fed1ff1228b7f74abf6738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:56 +0000
Subject: [PATCH 20/30] fix: treat different paths to the same config as the
 same when updating ignores

---
 main.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 0d67223..422ba61 100644
--- a/main.go
+++ b/main.go
@@ -712,17 +712,19 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 		// then we need to capture the id of each osv from each file
 		// against the location of each config being used for that lockfile
 		if *updateConfigIgnores && config.FilePath != "" {
-			if _, ok := vulnsPerConfig[config.FilePath]; !ok {
-				vulnsPerConfig[config.FilePath] = make(map[string]struct{})
+			configPath := findSameConfig(vulnsPerConfig, config.FilePath)
+
+			if _, ok := vulnsPerConfig[configPath]; !ok {
+				vulnsPerConfig[configPath] = make(map[string]struct{})
 			}
 
 			for _, pkg := range report.Packages {
 				for _, vul := range pkg.Vulnerabilities.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 
 				for _, vul := range pkg.Ignored.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 			}
 		}
@@ -748,6 +750,25 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	return exitCode
 }
 
+// returns the path that vulnerabilities for the config at the given path should
+// be captured against, since the same config can be found via different paths
+// (e.g. when both relative and absolute paths to lockfiles are being checked)
+func findSameConfig(vulnsPerConfig map[string]map[string]struct{}, configPath string) string {
+	info, err := os.Stat(configPath)
+
+	if err != nil {
+		return configPath
+	}
+
+	for otherPath := range vulnsPerConfig {
+		if otherInfo, err := os.Stat(otherPath); err == nil && os.SameFile(info, otherInfo) {
+			return otherPath
+		}
+	}
+
+	return configPath
+}
+
 func writeUpdatedConfigs(r *reporter.Reporter, vulnsPerConfig map[string]map[string]struct{}) {
 	if len(vulnsPerConfig) != 0 {
 		r.PrintTextf("\n")
-- 
2.43.0


From 422a37fcc084e17af3e905875b3f70db233a6ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 21/30] fix: support scoped and nested peer dependencies in
 pnpm v6 lockfiles

---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index a512b2e..52eee53 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -87,6 +87,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 		return name, version, nil
 	}
 
+	// peer dependencies in v6 lockfiles are attached to the end of the path in
+	// parentheses, and can themselves be scoped or have peer dependencies
+	dependencyPath, _, _ = strings.Cut(dependencyPath, "(")
+
 	parts := strings.Split(dependencyPath, "/")
 
 	if len(parts) == 1 {
-- 
2.43.0


From 5d29b3027135c35301f5fe5d49ffee6457be3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 22/30] fix: only treat lines that are a source section as such
 when parsing a Gemfile.lock

---
 pkg/lockfile/parse-gemfile-lock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-gemfile-lock.go b/pkg/lockfile/parse-gemfile-lock.go
index 5c7dc40..9017362 100644
--- a/pkg/lockfile/parse-gemfile-lock.go
+++ b/pkg/lockfile/parse-gemfile-lock.go
@@ -29,10 +29,10 @@ const parserStateRuby parserState = "ruby"
 const parserStateBundledWith parserState = "bundled_with"
 
 func isSourceSection(line string) bool {
-	return strings.Contains(line, lockfileSectionGIT) ||
-		strings.Contains(line, lockfileSectionGEM) ||
-		strings.Contains(line, lockfileSectionPATH) ||
-		strings.Contains(line, lockfileSectionPLUGIN)
+	return line == lockfileSectionGIT ||
+		line == lockfileSectionGEM ||
+		line == lockfileSectionPATH ||
+		line == lockfileSectionPLUGIN
 }
 
 type gemfileLockfileParser struct {
-- 
2.43.0


From 4e4c185d866b51d1f52cb72d48dec5c3fed4047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:42 +0000
Subject: [PATCH 23/30] fix: interpolate all properties in the version of maven
 dependencies

---
 pkg/lockfile/parse-maven-lock.go | 38 +++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index b62233d..ba5bc1a 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
 )
@@ -28,23 +29,40 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
-	interpolationReg := cachedregexp.MustCompile(`\${(.+)}`)
+	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
 
-	results := interpolationReg.FindStringSubmatch(mld.Version)
+	version := mld.Version
 
-	// no interpolation, so just return the version as-is
-	if results == nil {
-		return mld.Version
-	}
-	if val, ok := lockfile.Properties.m[results[1]]; ok {
-		return val
+	// properties can refer to other properties (including themselves),
+	// so there has to be a limit on how many we'll try to interpolate
+	for range 100 {
+		results := interpolationReg.FindStringSubmatch(version)
+
+		// no (more) interpolation, so just return the version as-is
+		if results == nil {
+			return version
+		}
+
+		val, ok := lockfile.Properties.m[results[1]]
+
+		if !ok {
+			fmt.Fprintf(
+				os.Stderr,
+				"Failed to resolve version of %s: property \"%s\" could not be found\n",
+				mld.GroupID+":"+mld.ArtifactID,
+				results[1],
+			)
+
+			return "0"
+		}
+
+		version = strings.Replace(version, results[0], val, 1)
 	}
 
 	fmt.Fprintf(
 		os.Stderr,
-		"Failed to resolve version of %s: property \"%s\" could not be found\n",
+		"Failed to resolve version of %s: too many properties\n",
 		mld.GroupID+":"+mld.ArtifactID,
-		results[1],
 	)
 
 	return "0"
-- 
2.43.0


From d45434f46d09166a8f710c48ca90e6fd8a7a26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:43 +0000
Subject: [PATCH 24/30] fix: ignore whitespace around the values of maven
 dependencies

---
 pkg/lockfile/parse-maven-lock.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index ba5bc1a..caeab82 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -21,11 +21,17 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 
 	results := versionRequirementReg.FindStringSubmatch(version)
 
-	if results == nil || results[1] == "" {
+	if results == nil {
 		return "0"
 	}
 
-	return results[1]
+	version = strings.TrimSpace(results[1])
+
+	if version == "" {
+		return "0"
+	}
+
+	return version
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
@@ -106,7 +112,7 @@ func (p *MavenLockProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 				return fmt.Errorf("%w", err)
 			}
 
-			p.m[tt.Name.Local] = s
+			p.m[tt.Name.Local] = strings.TrimSpace(s)
 
 		case xml.EndElement:
 			if tt.Name == start.Name {
@@ -116,6 +122,16 @@ func (p *MavenLockProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	}
 }
 
+// trimMavenDependencies removes the whitespace around the values of the given
+// dependencies, as it is not significant
+func trimMavenDependencies(dependencies []MavenLockDependency) {
+	for i := range dependencies {
+		dependencies[i].GroupID = strings.TrimSpace(dependencies[i].GroupID)
+		dependencies[i].ArtifactID = strings.TrimSpace(dependencies[i].ArtifactID)
+		dependencies[i].Version = strings.TrimSpace(dependencies[i].Version)
+	}
+}
+
 func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	var parsedLockfile *MavenLockFile
 
@@ -133,6 +149,9 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 
 	details := map[string]PackageDetails{}
 
+	trimMavenDependencies(parsedLockfile.ManagedDependencies)
+	trimMavenDependencies(parsedLockfile.Dependencies)
+
 	for _, lockPackage := range parsedLockfile.ManagedDependencies {
 		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
 
-- 
2.43.0


From ce56ace85bbd3cf37730f46884037c85dc05e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:01 +0000
Subject: [PATCH 25/30] fix: don't treat comments in a requirements.txt as
 being continued on the next line

---
 pkg/lockfile/parse-requirements-txt.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 735d344..0d82821 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -90,7 +90,8 @@ func isLineContinuation(line string) bool {
 	// meaning the last one isn't escaped
 	var re = cachedregexp.MustCompile(`([^\\]|^)(\\{2})*\\$`)
 
-	return re.MatchString(line)
+	// lines that are a comment are never continued
+	return re.MatchString(line) && !strings.HasPrefix(strings.TrimSpace(line), "#")
 }
 
 func ParseRequirementsTxt(pathToLockfile string) ([]PackageDetails, error) {
@@ -111,11 +112,19 @@ func parseRequirementsTxt(pathToLockfile string, requiredAlready map[string]stru
 	for scanner.Scan() {
 		line := scanner.Text()
 
-		for isLineContinuation(line) {
+		for part := line; isLineContinuation(part); {
 			line = strings.TrimSuffix(line, "\\")
+			part = ""
 
 			if scanner.Scan() {
-				line += scanner.Text()
+				part = scanner.Text()
+
+				// make sure that lines which are a comment are still one after being joined
+				if strings.HasPrefix(part, "#") {
+					part = " " + part
+				}
+
+				line += part
 			}
 		}
 
-- 
2.43.0


From 86443ab0e2c17db1fd72b92e7223c02186748a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:02 +0000
Subject: [PATCH 26/30] fix: don't include the end of the line in the name of
 yarn aliases without a range

---
 pkg/lockfile/parse-yarn-lock.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-yarn-lock.go b/pkg/lockfile/parse-yarn-lock.go
index ca96421..69c4b59 100644
--- a/pkg/lockfile/parse-yarn-lock.go
+++ b/pkg/lockfile/parse-yarn-lock.go
@@ -50,7 +50,12 @@ func extractYarnPackageName(str string) string {
 	str, _, _ = strings.Cut(str, ",")
 	str, isScoped := strings.CutPrefix(str, "@")
 
-	name, right, _ := strings.Cut(str, "@")
+	name, right, hasRange := strings.Cut(str, "@")
+
+	// without a range, the name is followed directly by the end of the line
+	if !hasRange {
+		name = strings.TrimRight(name, "\":")
+	}
 
 	if strings.HasPrefix(right, "npm:") && strings.Contains(right, "@") {
 		return extractYarnPackageName(strings.TrimPrefix(right, "npm:"))
-- 
2.43.0


From a839ab12befd7378bb2da3bc1510a54d36ae933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:20 +0000
Subject: [PATCH 27/30] fix: don't merge npm packages that have the same commit
 but different versions

---
 pkg/lockfile/parse-npm-lock.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 42889b6..2e1140e 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -124,17 +124,11 @@ func parseNpmLockPackages(packages map[string]NpmLockPackage) map[string]Package
 			finalName = extractNpmPackageName(namePath)
 		}
 
-		finalVersion := detail.Version
-
 		commit := tryExtractCommit(detail.Resolved)
 
-		// if there is a commit, we want to deduplicate based on that rather than
-		// the version (the versions must match anyway for the commits to match)
-		if commit != "" {
-			finalVersion = commit
-		}
-
-		details[finalName+"@"+finalVersion] = PackageDetails{
+		// the same commit can be locked with different versions (e.g. when they're
+		// from different repositories), so deduplicate based on both
+		details[finalName+"@"+detail.Version+"#"+commit] = PackageDetails{
 			Name:      finalName,
 			Version:   detail.Version,
 			Ecosystem: NpmEcosystem,
-- 
2.43.0


From 827042a939821be75fd503c642ebde6db09b4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:01 +0000
Subject: [PATCH 28/30] fix: don't cut off details in the middle of a multibyte
 character

When details without any spaces are truncated, the limit was used as a
number of bytes, even though it is characters that are being counted.
---
 pkg/database/osv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 78ece7b..4853582 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/g-rath/osv-detector/internal"
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
@@ -242,7 +243,10 @@ func truncate(str string, limit int) string {
 			// ideally we want to keep words whole when truncating,
 			// but if we can't find a space just truncate at the limit
 			if truncateAt == -1 {
-				truncateAt = limit
+				// taking care to not end up with only part of a multibyte character
+				_, size := utf8.DecodeRuneInString(str[i:])
+
+				truncateAt = i + size
 			}
 
 			return str[:truncateAt] + "..."
-- 
2.43.0


From 16f6c8f21a9bd04f711bdeaaedbbb8e4bcf3db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:17 +0000
Subject: [PATCH 29/30] fix: keep events of the same version in the order they
 are listed when checking ranges

sort.Slice is not stable, so for ranges with more than a dozen events a
last_affected event could end up being looked at before the introduced
event of the same version, meaning the affected period was never ended
---
 pkg/database/osv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 4853582..cf71974 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -102,7 +102,8 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return false
 	}
 
-	sort.Slice(ar.Events, func(i, j int) bool {
+	// events of the same version need to be kept in the order that they are listed in
+	sort.SliceStable(ar.Events, func(i, j int) bool {
 		a := ar.Events[i]
 		b := ar.Events[j]
 
-- 
2.43.0


From fcac4012048915e14c1068d0e93ce9def3c72442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:33 +0000
Subject: [PATCH 30/30] fix: don't rearrange the events of a range when
 checking a version against it

the events were sorted in place, so the order they ended up in for packages
compared one way influenced the result for packages compared another way
---
 pkg/database/osv.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index cf71974..49d00d4 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -102,10 +102,13 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return false
 	}
 
+	// the events are shared with every other check of this range, which might be ordering versions differently
+	events := slices.Clone(ar.Events)
+
 	// events of the same version need to be kept in the order that they are listed in
-	sort.SliceStable(ar.Events, func(i, j int) bool {
-		a := ar.Events[i]
-		b := ar.Events[j]
+	sort.SliceStable(events, func(i, j int) bool {
+		a := events[i]
+		b := events[j]
 
 		if a.Introduced == "0" {
 			return true
@@ -128,7 +131,7 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 	})
 
 	var affected bool
-	for _, e := range ar.Events {
+	for _, e := range events {
 		if affected {
 			if e.Fixed != "" {
 				order, _ := vp.CompareStr(e.Fixed)
-- 
2.43.0


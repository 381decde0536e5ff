From 758f68c8c1d44e20178ee163b1eb3ebfe5685784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 01/40] fix: compare a version constraint only with versions of
 the name it is about

---
 pkg/apk/repo.go    |  7 ++++---
 pkg/apk/version.go | 21 +++++++++++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index b70f1af..f1daed2 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -295,7 +295,7 @@ func (p *PkgResolver) disqualifyProviders(constraint string, dq map[*RepositoryP
 		return
 	}
 
-	conflicting := p.filterPackages(providers, dq, withVersion(parsed.version, parsed.dep), withPreferPin(parsed.pin))
+	conflicting := p.filterPackages(providers, dq, withName(parsed.name), withVersion(parsed.version, parsed.dep), withPreferPin(parsed.pin))
 
 	for _, conflict := range conflicting {
 		if _, dqed := dq[conflict.RepositoryPackage]; dqed {
@@ -594,7 +594,7 @@ func (p *PkgResolver) ResolvePackage(pkgName string, dq map[*RepositoryPackage]s
 
 	// pkgsWithVersions contains a map of all versions of the package
 	// get the one that most matches what was requested
-	packages := p.filterPackages(pkgsWithVersions, dq, withVersion(version, compare), withPreferPin(pin))
+	packages := p.filterPackages(pkgsWithVersions, dq, withName(name), withVersion(version, compare), withPreferPin(pin))
 	if len(packages) == 0 {
 		return nil, maybedqerror(pkgName, pkgsWithVersions, dq)
 	}
@@ -621,7 +621,7 @@ func (p *PkgResolver) resolvePackage(pkgName string, dq map[*RepositoryPackage]s
 
 	// pkgsWithVersions contains a map of all versions of the package
 	// get the one that most matches what was requested
-	packages := p.filterPackages(pkgsWithVersions, dq, withVersion(version, compare), withPreferPin(pin))
+	packages := p.filterPackages(pkgsWithVersions, dq, withName(name), withVersion(version, compare), withPreferPin(pin))
 	if len(packages) == 0 {
 		return nil, maybedqerror(pkgName, pkgsWithVersions, dq)
 	}
@@ -726,6 +726,7 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 			// get the one that most matches what was requested
 			pkgs := p.filterPackages(depPkgWithVersions,
 				dq,
+				withName(name),
 				withVersion(version, compare),
 				withAllowPin(allowPin),
 				withInstalledPackage(existing[name]),
diff --git a/pkg/apk/version.go b/pkg/apk/version.go
index 089d8a3..1add235 100644
--- a/pkg/apk/version.go
+++ b/pkg/apk/version.go
@@ -396,6 +396,7 @@ func resolvePackageNameVersionPin(pkgName string) parsedConstraint {
 }
 
 type filterOptions struct {
+	name      string
 	allowPin  string
 	preferPin string
 	version   string
@@ -421,6 +422,14 @@ func withVersion(version string, compare versionDependency) filterOption {
 		o.compare = compare
 	}
 }
+
+// withName sets the name the version constraint is about, so that it is compared only
+// with the version of the package of that name or with what others provide under that name.
+func withName(name string) filterOption {
+	return func(o *filterOptions) {
+		o.name = name
+	}
+}
 func withInstalledPackage(pkg *RepositoryPackage) filterOption {
 	return func(o *filterOptions) {
 		o.installed = pkg
@@ -473,13 +482,21 @@ func (p *PkgResolver) filterPackages(pkgs []*repositoryPackage, dq map[*Reposito
 			continue
 		}
 
-		if o.compare.satisfies(actualVersion, requiredVersion) {
+		if (o.name == "" || o.name == pkg.Name) && o.compare.satisfies(actualVersion, requiredVersion) {
 			passed = append(passed, pkg)
 			continue
 		}
 
 		for _, prov := range pkg.Provides {
-			version := p.resolvePackageNameVersionPin(prov).version
+			provided := p.resolvePackageNameVersionPin(prov)
+			if o.name != "" && o.name != provided.name {
+				continue
+			}
+			version := provided.version
+			if version == "" && o.name != "" {
+				// Provided without a version of its own.
+				version = pkg.Version
+			}
 			if version == "" {
 				continue
 			}
-- 
2.43.0


From 680412962acff33828eeb3f6abd514ab708f9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 02/40] fix: do not select two versions of one package for
 different dependents

---
 pkg/apk/repo.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index f1daed2..227b44b 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -367,6 +367,23 @@ func (p *PkgResolver) disqualifyConflicts(pkg *RepositoryPackage, dq map[*Reposi
 	}
 }
 
+// Disqualify every other version of the given selected pkg, because only one version of a package
+// can be installed.
+func (p *PkgResolver) disqualifyOtherVersions(pkg *RepositoryPackage, dq map[*RepositoryPackage]string) {
+	for _, other := range p.nameMap[pkg.Name] {
+		if other.Name != pkg.Name || other.Version == pkg.Version {
+			continue
+		}
+
+		if _, dqed := dq[other.RepositoryPackage]; dqed {
+			// Already disqualified, don't bother generating reason.
+			continue
+		}
+
+		p.disqualify(dq, other.RepositoryPackage, pkg.Filename()+" is already selected")
+	}
+}
+
 func (p *PkgResolver) disqualify(dq map[*RepositoryPackage]string, pkg *RepositoryPackage, reason string) {
 	dq[pkg] = reason
 
@@ -526,6 +543,7 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	p.disqualifyOtherVersions(pkg, dq)
 
 	pin := p.resolvePackageNameVersionPin(pkgName).pin
 	deps, conflicts, err := p.getPackageDependencies(pkg, pin, true, parents, localExisting, existingOrigins, dq)
@@ -769,6 +787,7 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 
 		depPkg := best.RepositoryPackage
 		p.disqualifyConflicts(depPkg, dq)
+		p.disqualifyOtherVersions(depPkg, dq)
 
 		// and then recurse to its children
 		// each child gets the parental chain, but should not affect any others,
-- 
2.43.0


From e1dbc19475eddb93d5f093418d89efbbcd611b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 03/40] fix: resolve the dependencies of install_if packages,
 in a fixed order

---
 pkg/apk/repo.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 227b44b..d5befbf 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -560,7 +560,10 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 		}
 	}
 	// are there any installIf dependencies?
-	for dep, depPkg := range added {
+	// Walk the list rather than the map, so that the result does not depend on map order and so that
+	// what gets added here is looked at, too.
+	for i := 0; i < len(dependencies); i++ {
+		dep, depPkg := dependencies[i].Name, dependencies[i]
 		depPkgList, ok := p.installIfMap[dep]
 		if !ok {
 			depPkgList, ok = p.installIfMap[fmt.Sprintf("%s=%s", dep, depPkg.Version)]
@@ -588,9 +591,26 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 			}
 			if matchCount == len(installIfPkg.InstallIf) {
 				// all dependencies are met, so add it
-				if _, ok := added[installIfPkg.Name]; !ok {
-					dependencies = append(dependencies, installIfPkg.RepositoryPackage)
-					added[installIfPkg.Name] = installIfPkg.RepositoryPackage
+				if _, ok := added[installIfPkg.Name]; ok {
+					continue
+				}
+				if _, dqed := dq[installIfPkg.RepositoryPackage]; dqed {
+					continue
+				}
+				// It needs its own dependencies. If it cannot have them, leave it out.
+				installIfDq := maps.Clone(dq)
+				subDeps, confs, err := p.getPackageDependencies(installIfPkg.RepositoryPackage, pin, true, parents, maps.Clone(localExisting), maps.Clone(existingOrigins), installIfDq)
+				if err != nil {
+					continue
+				}
+				maps.Copy(dq, installIfDq)
+				p.disqualifyOtherVersions(installIfPkg.RepositoryPackage, dq)
+				conflicts = append(conflicts, confs...)
+				for _, add := range append(subDeps, installIfPkg.RepositoryPackage) {
+					if _, ok := added[add.Name]; !ok {
+						dependencies = append(dependencies, add)
+						added[add.Name] = add
+					}
 				}
 			}
 		}
-- 
2.43.0


From e44927b703b4f42ddd96ecaa735b8f4d4d904d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 04/40] fix: a package fulfils its own dependency only with a
 version that satisfies it

---
 pkg/apk/repo.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index d5befbf..34aee60 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -732,7 +732,7 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 			constraint := p.resolvePackageNameVersionPin(dep)
 			name, version, compare := constraint.name, constraint.version, constraint.dep
 			// see if we provide this
-			if myProvides[name] || myProvides[dep] {
+			if myProvides[dep] || (myProvides[name] && p.providesConstraint(pkg, constraint)) {
 				// we provide this, so skip it
 				continue
 			}
@@ -833,6 +833,25 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 	return dependencies, conflicts, nil
 }
 
+// providesConstraint reports whether something that pkg provides satisfies the constraint.
+func (p *PkgResolver) providesConstraint(pkg *RepositoryPackage, constraint parsedConstraint) bool {
+	requiredVersion, reqErr := p.parseVersion(constraint.version)
+	for _, provide := range pkg.Provides {
+		provided := p.resolvePackageNameVersionPin(provide)
+		if provided.name != constraint.name {
+			continue
+		}
+		if constraint.dep == versionAny {
+			return true
+		}
+		actualVersion, err := p.parseVersion(provided.version)
+		if err == nil && reqErr == nil && constraint.dep.satisfies(actualVersion, requiredVersion) {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *PkgResolver) parseVersion(version string) (Version, error) {
 	pkg, ok := p.parsedVersions[version]
 	if ok {
-- 
2.43.0


From 791066eea8ed301b880031d485989bd87df00a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 05/40] fix: on a dependency cycle list a package after its
 dependencies outside the cycle

---
 pkg/apk/repo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 34aee60..541930e 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -809,6 +809,12 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 		p.disqualifyConflicts(depPkg, dq)
 		p.disqualifyOtherVersions(depPkg, dq)
 
+		// On a cycle we get back to a package further up. It is going to be added there, once all
+		// of its dependencies are in.
+		if parents[depPkg.Name] {
+			continue
+		}
+
 		// and then recurse to its children
 		// each child gets the parental chain, but should not affect any others,
 		// so we duplicate the map for the child
-- 
2.43.0


From 0290dbf38ce40cb9ff605f81e2c958df1a84e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 06/40] fix: reject user and group ids that are not 32-bit
 unsigned numbers

---
 pkg/passwd/group.go  | 2 +-
 pkg/passwd/passwd.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index 5021f4d..ba0f93e 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -129,7 +129,7 @@ func (ge *GroupEntry) Parse(line string) error {
 	ge.GroupName = parts[0]
 	ge.Password = parts[1]
 
-	gid, err := strconv.Atoi(parts[2])
+	gid, err := strconv.ParseUint(parts[2], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse UID %s", parts[2])
 	}
diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 0a4a667..1481a23 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -133,13 +133,13 @@ func (ue *UserEntry) Parse(line string) error {
 	ue.UserName = parts[0]
 	ue.Password = parts[1]
 
-	uid, err := strconv.Atoi(parts[2])
+	uid, err := strconv.ParseUint(parts[2], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse UID %s", parts[2])
 	}
 	ue.UID = uint32(uid)
 
-	gid, err := strconv.Atoi(parts[3])
+	gid, err := strconv.ParseUint(parts[3], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse GID %s", parts[3])
 	}
-- 
2.43.0


From 241e776281e53e6b9f09ad0c7dd97afba8ee5290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 07/40] fix: check the range a retried download is answered
 with

---
 pkg/apk/transport.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index 8f3585f..e432e23 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -96,6 +96,15 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		}
 
 		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+	} else if cr := resp.Header.Get("Content-Range"); cr != "" {
+		// Make sure that what we got starts where we left off.
+		var start, end, total int64
+		if n, _ := fmt.Sscanf(cr, "bytes %d-%d/%d", &start, &end, &total); n < 2 || start != r.progress {
+			return resp, fmt.Errorf("%s %s (Range: %s): unexpected content range: %q", req.Method, req.URL.String(), rangeHeader, cr)
+		}
+		if r.total <= 0 {
+			r.total = total
+		}
 	}
 
 	r.body = resp.Body
@@ -117,7 +126,11 @@ func (r *rangeRetryReader) Read(p []byte) (n int, err error) {
 		}
 
 		if errors.Is(err, io.EOF) {
-			break
+			if r.progress+int64(n) >= r.total {
+				break
+			}
+			// The server ended the response early, e.g. it sent a shorter range than what we asked for.
+			err = io.ErrUnexpectedEOF
 		}
 
 		if !retry {
-- 
2.43.0


From 69c3af5ca3e150b38a6e2426c2b2a43dc0a5660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 08/40] fix: reject a package that ends before its data section
 and clean up when expansion fails

---
 pkg/expandapk/expandapk.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 5f4fc4f..30d9295 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -325,7 +325,7 @@ func (r *expandApkReader) EnableFastRead() {
 //
 // Returns an APKExpanded struct containing references to the file. You *must* call APKExpanded.Close()
 // when finished to clean up the various files.
-func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpanded, error) {
+func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKExpanded, rerr error) {
 	ctx, span := otel.Tracer("go-apk").Start(ctx, "ExpandApk")
 	defer span.End()
 
@@ -334,6 +334,13 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		return nil, err
 	}
 
+	defer func() {
+		// The caller only gets something to Close() when we succeed.
+		if rerr != nil {
+			os.RemoveAll(dir)
+		}
+	}()
+
 	sw, err := newExpandApkWriter(dir, "stream", "tar.gz")
 	if err != nil {
 		return nil, fmt.Errorf("expandApk error 1: %w", err)
@@ -413,14 +420,19 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		}
 	}
 
-	if err := gzi.Close(); err != nil {
-		return nil, fmt.Errorf("expandApk error 6: %w", err)
-	}
 	if err := sw.CloseFile(); err != nil {
 		return nil, fmt.Errorf("expandApk error 7: %w", err)
 	}
 
+	// A signed package that ends after its control section has as many streams as an unsigned one.
 	numGzipStreams := len(gzipStreams)
+	if numGzipStreams != sw.maxStreams {
+		return nil, fmt.Errorf("invalid number of tar streams: %d", numGzipStreams)
+	}
+
+	if err := gzi.Close(); err != nil {
+		return nil, fmt.Errorf("expandApk error 6: %w", err)
+	}
 
 	// Calculate the total size of the apk (combo of all streams)
 	totalSize := int64(0)
-- 
2.43.0


From ef6e5a3453e12970670271628033309763327d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 09/40] fix: report the sections of a resolved package
 correctly for unsigned and signed packages

---
 pkg/apk/resolveapk.go | 47 +++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/pkg/apk/resolveapk.go b/pkg/apk/resolveapk.go
index 3c4dcb2..8488705 100644
--- a/pkg/apk/resolveapk.go
+++ b/pkg/apk/resolveapk.go
@@ -3,9 +3,11 @@ package apk
 
 import (
 	"archive/tar"
+	"bytes"
 	"context"
 	"crypto/sha1"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"hash"
 	"io"
@@ -75,6 +77,8 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 	streamId := 0
 	controlIdx := 0
 	signed := false
+	complete := false
+	prevBytes := 0
 
 	var gzi *gzip.Reader
 	cr := &countingWriter{}
@@ -101,8 +105,23 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 		}
 		gzi.Multistream(false)
 
+		if streamId > controlIdx {
+			// We don't need anything from the data section itself.
+			gzi.Close()
+			complete = true
+			break
+		}
+
+		section, err := io.ReadAll(gzi)
+		if err != nil {
+			return nil, fmt.Errorf("ResolveApk error 2: %v", err)
+		}
+		hashes[streamId] = h.Sum(nil)
+		gzipStreamSizes[streamId] = cr.bytesWritten - prevBytes
+		prevBytes = cr.bytesWritten
+
 		if streamId == 0 {
-			tr := tar.NewReader(gzi)
+			tr := tar.NewReader(bytes.NewReader(section))
 			hdr, err := tr.Next()
 			if err != nil {
 				return nil, fmt.Errorf("ResolveApk error 1: %v", err)
@@ -112,14 +131,16 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 				controlIdx = 1
 				signed = true
 			}
-		} else if controlIdx == streamId {
-			mapping, err := controlValue(gzi, "datahash", "size")
+		}
+
+		if controlIdx == streamId {
+			mapping, err := controlValue(bytes.NewReader(section), "datahash", "size")
 			if err != nil {
 				return nil, fmt.Errorf("reading datahash and size from control: %w", err)
 			}
 
 			if sizes, ok := mapping["size"]; !ok {
-				return nil, fmt.Errorf("reading size from control: %w", err)
+				return nil, errors.New("no size in control")
 			} else if len(sizes) != 1 {
 				return nil, fmt.Errorf("saw %d size values", len(sizes))
 			} else if size, err := strconv.Atoi(sizes[0]); err != nil {
@@ -129,7 +150,7 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 			}
 
 			if datahashes, ok := mapping["datahash"]; !ok {
-				return nil, fmt.Errorf("reading datahash from control: %w", err)
+				return nil, errors.New("no datahash in control")
 			} else if len(datahashes) != 1 {
 				return nil, fmt.Errorf("saw %d datahash values", len(datahashes))
 			} else if hash, err := hex.DecodeString(datahashes[0]); err != nil {
@@ -139,21 +160,13 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 			}
 		}
 
-		if streamId <= controlIdx {
-			if _, err := io.Copy(io.Discard, gzi); err != nil {
-				return nil, fmt.Errorf("ResolveApk error 2: %v", err)
-			}
-
-			hashes[streamId] = h.Sum(nil)
-			gzipStreamSizes[streamId] = cr.bytesWritten
-		} else {
-			gzi.Close()
-			break
-		}
-
 		streamId++
 	}
 
+	if !complete {
+		return nil, fmt.Errorf("invalid number of tar streams: %d", streamId)
+	}
+
 	resolved := &APKResolved{
 		SignatureSize: 0,
 		ControlSize:   gzipStreamSizes[controlIdx],
-- 
2.43.0


From f44e5e7b98a1defe85a66df478d1fa88bff41355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 10/40] fix: show every entry of a package once, by its clean
 path, in the archive views

---
 internal/tarfs/tarfs.go | 46 ++++++++++++++++-----
 pkg/fs/apkfs.go         | 90 ++++++++++++++++++-----------------------
 2 files changed, 77 insertions(+), 59 deletions(-)

diff --git a/internal/tarfs/tarfs.go b/internal/tarfs/tarfs.go
index d202bd6..cef144d 100644
--- a/internal/tarfs/tarfs.go
+++ b/internal/tarfs/tarfs.go
@@ -120,13 +120,16 @@ func (fsys *FS) open(name string, hops int) (fs.File, error) {
 	e := fsys.files[i]
 
 	switch e.Header.Typeflag {
-	case tar.TypeSymlink, tar.TypeLink:
+	case tar.TypeLink:
+		// The target of a hard link is relative to the root of the archive.
+		return fsys.open(clean(e.Header.Linkname), hops+1)
+	case tar.TypeSymlink:
 		link := e.Header.Linkname
 		if path.IsAbs(link) {
-			return fsys.open(link, hops+1)
+			return fsys.open(clean(link), hops+1)
 		}
 
-		return fsys.open(path.Join(e.dir, link), hops+1)
+		return fsys.open(clean(path.Join("/", e.dir, link)), hops+1)
 	}
 
 	f := &File{
@@ -139,6 +142,16 @@ func (fsys *FS) open(name string, hops int) (fs.File, error) {
 	return f, nil
 }
 
+// clean returns the name of an archive entry in the form used by io/fs:
+// no leading "/" or "./", no trailing "/".
+func clean(name string) string {
+	name = path.Clean("/" + name)[1:]
+	if name == "" {
+		return "."
+	}
+	return name
+}
+
 // Open implements fs.FS.
 func (fsys *FS) Open(name string) (fs.File, error) {
 	return fsys.open(name, 0)
@@ -172,12 +185,19 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 }
 
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
-	dirs, ok := fsys.dirs[name]
-	if !ok {
-		return []fs.DirEntry{}, nil
+	if dirs, ok := fsys.dirs[name]; ok {
+		return dirs, nil
 	}
 
-	return dirs, nil
+	fi, err := fsys.Stat(name)
+	if err != nil {
+		return nil, &fs.PathError{Op: "readdir", Path: name, Err: err}
+	}
+	if !fi.IsDir() {
+		return nil, &fs.PathError{Op: "readdir", Path: name, Err: errors.New("not a directory")}
+	}
+
+	return []fs.DirEntry{}, nil
 }
 
 type countReader struct {
@@ -214,8 +234,10 @@ func New(ra io.ReaderAt, size int64) (*FS, error) {
 		if err != nil {
 			return nil, err
 		}
-		dir := path.Dir(hdr.Name)
+		name := clean(hdr.Name)
+		dir := path.Dir(name)
 		fsys.index[hdr.Name] = len(fsys.files)
+		fsys.index[name] = len(fsys.files)
 		fsys.files = append(fsys.files, &Entry{
 			Header: *hdr,
 			Offset: cr.n,
@@ -223,7 +245,9 @@ func New(ra io.ReaderAt, size int64) (*FS, error) {
 			fi:     hdr.FileInfo(),
 		})
 
-		dirCount[dir]++
+		if name != "." {
+			dirCount[dir]++
+		}
 	}
 
 	// Pre-generate the results of ReadDir so we don't allocate a ton if fs.WalkDir calls us.
@@ -233,6 +257,10 @@ func New(ra io.ReaderAt, size int64) (*FS, error) {
 	}
 
 	for _, f := range fsys.files {
+		if clean(f.Header.Name) == "." {
+			// The root is not an entry of itself.
+			continue
+		}
 		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
 	}
 
diff --git a/pkg/fs/apkfs.go b/pkg/fs/apkfs.go
index 0c8ddc5..874444c 100644
--- a/pkg/fs/apkfs.go
+++ b/pkg/fs/apkfs.go
@@ -4,9 +4,12 @@ import (
 	"archive/tar"
 	"compress/gzip"
 	"context"
+	"errors"
 	"io"
 	"io/fs"
 	"os"
+	"path"
+	"sort"
 	"strings"
 	"time"
 
@@ -61,15 +64,6 @@ func (a *APKFS) getTarReader() (*os.File, *tar.Reader, error) {
 	tr := tar.NewReader(gzipStream)
 	return file, tr, nil
 }
-func correctMode(mode fs.FileMode, header *tar.Header) fs.FileMode {
-	switch header.Typeflag {
-	case tar.TypeSymlink:
-		mode |= fs.ModeSymlink
-	case tar.TypeDir:
-		mode |= fs.ModeDir
-	}
-	return mode
-}
 func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS, error) {
 	result := APKFS{archive, make(map[string]*apkFSFile), ctx, nil, apkfsType}
 
@@ -110,7 +104,8 @@ func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS,
 			return nil, err
 		}
 
-		currentEntry := apkFSFile{mode: correctMode(fs.FileMode(header.Mode), header), name: "/" + header.Name,
+		name := correctApkFSPath(header.Name)
+		currentEntry := apkFSFile{mode: header.FileInfo().Mode(), tarMode: header.Mode, name: name, entryName: header.Name,
 			uid: header.Uid, gid: header.Gid,
 			size: uint64(header.Size), modTime: header.ModTime,
 			createTime: header.ChangeTime,
@@ -124,7 +119,12 @@ func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS,
 				currentEntry.xattrs[attrname] = []byte(v)
 			}
 		}
-		result.files["/"+header.Name] = &currentEntry
+		if target, ok := result.files[correctApkFSPath(header.Linkname)]; ok && header.Typeflag == tar.TypeLink {
+			// A hard link is another name of the file it refers to.
+			currentEntry.entryName = target.entryName
+			currentEntry.size = target.size
+		}
+		result.files[name] = &currentEntry
 	}
 
 	result.files["/"] = &apkFSFile{mode: 0777 | fs.ModeDir, name: "/",
@@ -147,9 +147,12 @@ func (a *APKFS) Close() error {
 }
 
 type apkFSFile struct {
-	mode       fs.FileMode
-	uid, gid   int
-	name       string
+	mode     fs.FileMode
+	tarMode  int64
+	uid, gid int
+	name     string
+	// entryName is the name of the archive entry that holds the content.
+	entryName  string
 	size       uint64
 	modTime    time.Time
 	createTime time.Time
@@ -167,27 +170,29 @@ type apkFSFile struct {
 // Users of the api should not handle the copies referred to in the
 // filesystem object.
 func (a *apkFSFile) acquireCopy() *apkFSFile {
-	return &apkFSFile{mode: a.mode, uid: a.uid, gid: a.gid, size: a.size,
-		name: a.name, modTime: a.modTime, createTime: a.createTime, linkTarget: a.linkTarget,
+	return &apkFSFile{mode: a.mode, tarMode: a.tarMode, uid: a.uid, gid: a.gid, size: a.size,
+		name: a.name, entryName: a.entryName, modTime: a.modTime, createTime: a.createTime, linkTarget: a.linkTarget,
 		linkCount: a.linkCount, xattrs: a.xattrs, isDir: a.isDir, fs: a.fs,
 		fileDescriptor: nil, tarReader: nil}
 }
 func (a *apkFSFile) seekTo(reader *tar.Reader) error {
 	for {
 		header, err := reader.Next()
-		if err == os.ErrNotExist {
-			break
+		if err == io.EOF {
+			return os.ErrNotExist
 		} else if err != nil {
 			return err
 		}
-		if header.Name == a.name[1:] {
+		if header.Name == a.entryName {
 			return nil
 		}
 	}
-	return os.ErrNotExist
 }
 
 func (a *apkFSFile) Read(b []byte) (int, error) {
+	if a.tarReader == nil {
+		return 0, &fs.PathError{Op: "read", Path: a.name, Err: errors.New("is a directory")}
+	}
 	return a.tarReader.Read(b)
 }
 func (a *apkFSFile) Stat() (fs.FileInfo, error) {
@@ -214,23 +219,12 @@ func (a *APKFS) Stat(path string) (fs.FileInfo, error) {
 	info := &apkFSFileInfo{file: file, name: onlyName}
 	return info, nil
 }
-func correctApkFSPath(path string) string {
-	if path == "." {
-		path = "/"
-	}
-	if len(path) > 3 && path[:2] == "./" {
-		path = path[1:]
-	}
-
-	if len(path) < 1 || path[0:1] != "/" {
-		path = "/" + path
-	}
-
-	return path
+func correctApkFSPath(p string) string {
+	return path.Clean("/" + p)
 }
-func (a *APKFS) ReadDir(path string) ([]fs.DirEntry, error) {
-	path = correctApkFSPath(path)
-	file, ok := a.files[path]
+func (a *APKFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	name = correctApkFSPath(name)
+	file, ok := a.files[name]
 	if !ok {
 		return nil, fs.ErrNotExist
 	}
@@ -239,21 +233,13 @@ func (a *APKFS) ReadDir(path string) ([]fs.DirEntry, error) {
 	}
 	results := make([]fs.DirEntry, 0)
 	for currentPath, currentFile := range a.files {
-		if path == currentPath {
+		if currentPath == "/" || path.Dir(currentPath) != name {
+			// the root itself, or not directly in this directory
 			continue
 		}
-		pathPrefix := path
-		if path != "/" {
-			pathPrefix += "/"
-		}
-		if strings.HasPrefix(currentPath, pathPrefix) {
-			if strings.LastIndex(currentPath, "/") > len(path)+1 {
-				// some sub-sub directory, not yet
-				continue
-			}
-			results = append(results, &apkFSFileInfo{currentFile, currentPath[strings.LastIndex(currentPath, "/"):]})
-		}
+		results = append(results, &apkFSFileInfo{currentFile, path.Base(currentPath)})
 	}
+	sort.Slice(results, func(i, j int) bool { return results[i].Name() < results[j].Name() })
 	return results, nil
 }
 
@@ -265,6 +251,9 @@ func (a *APKFS) Open(path string) (fs.File, error) {
 	}
 
 	fileCopy := file.acquireCopy()
+	if file.isDir {
+		return fileCopy, nil
+	}
 	var err error
 	fileCopy.fileDescriptor, fileCopy.tarReader, err = a.getTarReader()
 	if err != nil {
@@ -272,6 +261,7 @@ func (a *APKFS) Open(path string) (fs.File, error) {
 	}
 	err = fileCopy.seekTo(fileCopy.tarReader)
 	if err != nil {
+		fileCopy.fileDescriptor.Close()
 		return nil, err
 	}
 	return fileCopy, nil
@@ -292,7 +282,7 @@ func (a *apkFSFileInfo) Mode() fs.FileMode {
 	return a.file.mode
 }
 func (a *apkFSFileInfo) Type() fs.FileMode {
-	return a.Mode()
+	return a.Mode().Type()
 }
 func (a *apkFSFileInfo) Info() (fs.FileInfo, error) {
 	return a, nil
@@ -305,7 +295,7 @@ func (a *apkFSFileInfo) IsDir() bool {
 }
 func (a *apkFSFileInfo) Sys() any {
 	return &tar.Header{
-		Mode: int64(a.file.mode),
+		Mode: a.file.tarMode,
 		Uid:  a.file.uid,
 		Gid:  a.file.gid,
 	}
-- 
2.43.0


From 6f2ce3af51e44bb0abc7b48a7bbbefa04f504b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 11/40] fix: read repository lines of any length

---
 pkg/apk/repo.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 541930e..abbe012 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -15,7 +15,6 @@
 package apk
 
 import (
-	"bufio"
 	"cmp"
 	"context"
 	"errors"
@@ -123,11 +122,17 @@ func (a *APK) GetRepositories() (repos []string, err error) {
 		return nil, fmt.Errorf("could not open repositories file in %s at %s: %w", a.fs, reposFilePath, err)
 	}
 	defer reposFile.Close()
-	scanner := bufio.NewScanner(reposFile)
-	for scanner.Scan() {
-		repos = append(repos, scanner.Text())
+	reposData, err := io.ReadAll(reposFile)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read repositories file: %w", err)
+	}
+	if len(reposData) == 0 {
+		return nil, nil
+	}
+	for _, line := range strings.Split(strings.TrimSuffix(string(reposData), "\n"), "\n") {
+		repos = append(repos, strings.TrimSuffix(line, "\r"))
 	}
-	return
+	return repos, nil
 }
 
 // GetRepositoryIndexes returns the indexes for the repositories in the specified root.
-- 
2.43.0


From eee454e92d5ef77e212927245ca62c560917572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 12/40] fix: make initialising an existing database work

---
 pkg/apk/implementation.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index c105a25..5a4a010 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -253,7 +253,7 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 			return fmt.Errorf("error opening base directory %s: %w", e.path, err)
 		case !stat.IsDir():
 			return fmt.Errorf("base directory %s is not a directory", e.path)
-		case stat.Mode().Perm() != e.perms:
+		case stat.Mode().Perm() != e.perms.Perm():
 			return fmt.Errorf("base directory %s has incorrect permissions: %o", e.path, stat.Mode().Perm())
 		}
 	}
@@ -279,7 +279,12 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 	}
 	for _, e := range initDeviceFiles {
 		perms := uint32(e.perms.Perm())
-		err := a.fs.Mknod(e.path, unix.S_IFCHR|perms, int(unix.Mkdev(e.major, e.minor)))
+		wanted := int(unix.Mkdev(e.major, e.minor))
+		if dev, err := a.fs.Readnod(e.path); err == nil && dev == wanted {
+			// already there
+			continue
+		}
+		err := a.fs.Mknod(e.path, unix.S_IFCHR|perms, wanted)
 		if !a.ignoreMknodErrors && err != nil {
 			return fmt.Errorf("failed to create char device %s: %w", e.path, err)
 		}
@@ -287,7 +292,7 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 
 	// add scripts.tar with nothing in it
 	scriptsTarPerms := 0o644
-	TarFile, err := a.fs.OpenFile(scriptsFilePath, os.O_CREATE|os.O_WRONLY, fs.FileMode(scriptsTarPerms))
+	TarFile, err := a.fs.OpenFile(scriptsFilePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, fs.FileMode(scriptsTarPerms))
 	if err != nil {
 		return fmt.Errorf("could not create tarball file '%s', got error '%w'", scriptsFilePath, err)
 	}
-- 
2.43.0


From 462bb3a3befca727d316f29ace6e2f39ea666595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 13/40] fix: store discovered keys only when fetched
 successfully, under their base name

---
 pkg/apk/implementation.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 5a4a010..e3a8da6 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -766,18 +766,26 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 			return fmt.Errorf("failed to fetch alpine key %s: %w", u, err)
 		}
 		defer res.Body.Close()
+		if res.StatusCode != http.StatusOK {
+			return fmt.Errorf("unable to get alpine key at %s: %v", u, res.Status)
+		}
 		basefilenameEscape := filepath.Base(u)
 		basefilename, err := url.PathUnescape(basefilenameEscape)
 		if err != nil {
 			return fmt.Errorf("failed to unescape key filename %s: %w", basefilenameEscape, err)
 		}
+		// the unescaped name must not lead out of the keys directory
+		basefilename = filepath.Base(basefilename)
+		if basefilename == "." || basefilename == ".." || basefilename == string(filepath.Separator) {
+			return fmt.Errorf("invalid key filename %s", basefilenameEscape)
+		}
 		filename := filepath.Join(keysDirPath, basefilename)
-		f, err := a.fs.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0o644)
+		key, err := io.ReadAll(res.Body)
 		if err != nil {
-			return fmt.Errorf("failed to open key file %s: %w", filename, err)
+			return fmt.Errorf("failed to read alpine key %s: %w", u, err)
 		}
-		defer f.Close()
-		if _, err := io.Copy(f, res.Body); err != nil {
+		// #nosec G306 -- apk keyring must be publicly readable
+		if err := a.fs.WriteFile(filename, key, 0o644); err != nil {
 			return fmt.Errorf("failed to write key file %s: %w", filename, err)
 		}
 	}
-- 
2.43.0


From a368fa5afc91c646d4b0c587216c69df9d82a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 14/40] fix: report errors of finishing an archive

---
 pkg/tarball/write.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/tarball/write.go b/pkg/tarball/write.go
index 55d0d09..00f1092 100644
--- a/pkg/tarball/write.go
+++ b/pkg/tarball/write.go
@@ -298,9 +298,12 @@ func (c *Context) WriteTargz(ctx context.Context, dst io.Writer, src fs.FS, user
 	defer span.End()
 
 	gzw := gzip.NewWriter(dst)
-	defer gzw.Close()
+	if err := c.WriteTar(ctx, gzw, src, userinfofs); err != nil {
+		gzw.Close()
+		return err
+	}
 
-	return c.WriteTar(ctx, gzw, src, userinfofs)
+	return gzw.Close()
 }
 
 // WriteTar writes a tarball to the provided io.Writer from the provided fs.FS.
@@ -313,11 +316,6 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 	defer span.End()
 
 	tw := tar.NewWriter(dst)
-	if !c.SkipClose {
-		defer tw.Close()
-	} else {
-		defer tw.Flush()
-	}
 
 	// get the uname and gname maps
 	usersFile, _ := passwd.ReadUserFile(userinfosrc, "etc/passwd")
@@ -334,5 +332,13 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 		return fmt.Errorf("writing TAR archive failed: %w", err)
 	}
 
+	end := tw.Close
+	if c.SkipClose {
+		end = tw.Flush
+	}
+	if err := end(); err != nil {
+		return fmt.Errorf("finishing TAR archive failed: %w", err)
+	}
+
 	return nil
 }
-- 
2.43.0


From ebaf3407d76e90340cebec692dd4a395fa29ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 15/40] fix: read a signed index only from the bytes its
 signature covers

---
 pkg/apk/index.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 9417726..622803a 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -241,7 +241,11 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		return nil, fmt.Errorf("repository scheme %s not supported", asURL.Scheme)
 	}
 
-	// validate the signature
+	// validate the signature; the index is then read only from the bytes that are signed
+	var (
+		indexData = b
+		signature []byte
+	)
 	if shouldCheckSignatureForIndex(u, arch, opts) {
 		buf := bytes.NewReader(b)
 		gzipReader, err := gzip.NewReader(buf)
@@ -265,7 +269,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if len(matches) != 2 {
 			return nil, fmt.Errorf("failed to find key name in signature file name: %s", signatureFile.Name)
 		}
-		signature, err := io.ReadAll(tarReader)
+		signature, err = io.ReadAll(tarReader)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read signature from repository index: %w", err)
 		}
@@ -273,12 +277,16 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if _, err := tarReader.Next(); err != nil && !errors.Is(err, io.EOF) {
 			return nil, fmt.Errorf("unexpected error reading from tgz: %w", err)
 		}
+		// the signed bytes start where the signature part ends, whatever follows the signature in it
+		if _, err := io.Copy(io.Discard, gzipReader); err != nil {
+			return nil, fmt.Errorf("unexpected error reading from tgz: %w", err)
+		}
 		// we now have the signature bytes and name, get the contents of the rest;
 		// this should be everything else in the raw gzip file as is.
 		allBytes := len(b)
 		unreadBytes := buf.Len()
 		readBytes := allBytes - unreadBytes
-		indexData := b[readBytes:]
+		indexData = b[readBytes:]
 
 		indexDigest, err := sign.HashData(indexData)
 		if err != nil {
@@ -308,10 +316,13 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		}
 	}
 	// with a valid signature, convert it to an ApkIndex
-	index, err := IndexFromArchive(io.NopCloser(bytes.NewReader(b)))
+	index, err := IndexFromArchive(io.NopCloser(bytes.NewReader(indexData)))
 	if err != nil {
 		return nil, fmt.Errorf("unable to read convert repository index bytes to index struct at %s: %w", asURL.Redacted(), err)
 	}
+	if signature != nil {
+		index.Signature = signature
+	}
 
 	return index, err
 }
-- 
2.43.0


From c16f9d4df5e4a96509a6a434301c5fa52c09dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 16/40] fix: do not reuse an index accepted under other keys or
 signature policy

---
 pkg/apk/index.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 622803a..9cb22c3 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -18,6 +18,7 @@ import (
 	"archive/tar"
 	"bytes"
 	"context"
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"io"
@@ -26,6 +27,7 @@ import (
 	"net/url"
 	"os"
 	"regexp"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -59,17 +61,36 @@ type indexCache struct {
 	sync.Mutex
 	modtimes map[string]time.Time
 
-	// repoBase -> indexResult
+	// cache key -> indexResult
 	indexes sync.Map
 }
 
+// key identifies the results of loading u. Whether an index is accepted depends on the keys it
+// is verified with, if it is verified at all, so a result is only shared between equal ones.
+func (i *indexCache) key(u string, keys map[string][]byte, arch string, opts *indexOpts) string {
+	if !shouldCheckSignatureForIndex(u, arch, opts) {
+		return u
+	}
+	names := make([]string, 0, len(keys))
+	for name := range keys {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	h := sha256.New()
+	for _, name := range names {
+		fmt.Fprintf(h, "%d:%s%d:%s", len(name), name, len(keys[name]), keys[name])
+	}
+	return fmt.Sprintf("%s#%x", u, h.Sum(nil))
+}
+
 func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte, arch string, opts *indexOpts) (*APKIndex, error) {
+	key := i.key(u, keys, arch, opts)
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
 		// We don't want remote indexes to change while we're running.
-		once, _ := i.onces.LoadOrStore(u, &sync.Once{})
+		once, _ := i.onces.LoadOrStore(key, &sync.Once{})
 		once.(*sync.Once).Do(func() {
 			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
+			i.indexes.Store(key, indexResult{
 				idx: idx,
 				err: err,
 			})
@@ -85,19 +106,19 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 		}
 
 		mod := stat.ModTime()
-		before, ok := i.modtimes[u]
+		before, ok := i.modtimes[key]
 		if !ok || mod.After(before) {
 			// If this is the first time or it has changed since the last time...
 			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
+			i.indexes.Store(key, indexResult{
 				idx: idx,
 				err: err,
 			})
-			i.modtimes[u] = mod
+			i.modtimes[key] = mod
 		}
 	}
 
-	v, ok := i.indexes.Load(u)
+	v, ok := i.indexes.Load(key)
 	if !ok {
 		asURL, _ := url.Parse(u)
 		panic(fmt.Errorf("did not see index %q after writing it", asURL.Redacted()))
-- 
2.43.0


From 20c0ffaeb65a850515234a320fd4999953a81033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 17/40] fix: write install_if of index entries as a list and
 read the last entry of an index

---
 pkg/apk/apkindex.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 36fc91c..9640d22 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -62,7 +62,7 @@ var apkIndexTemplate = template.Must(template.New(apkIndexFilename).Funcs(
 		D:{{join .Dependencies}}
 		{{- end}}
 		{{- if .InstallIf}}
-		i:{{.InstallIf}}
+		i:{{join .InstallIf}}
 		{{- end}}
 		{{- if .Provides}}
 		p:{{join .Provides}}
@@ -120,7 +120,7 @@ func ParsePackageIndex(apkIndexUnpacked io.Reader) ([]*Package, error) {
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
@@ -191,7 +191,16 @@ func ParsePackageIndex(apkIndexUnpacked io.Reader) ([]*Package, error) {
 		linenr++
 	}
 
-	return packages, indexScanner.Err()
+	if err := indexScanner.Err(); err != nil {
+		return nil, err
+	}
+
+	// the last entry need not be followed by an empty line
+	if pkg.Name != "" {
+		packages = append(packages, pkg)
+	}
+
+	return packages, nil
 }
 
 func IndexFromArchive(archive io.ReadCloser) (*APKIndex, error) {
-- 
2.43.0


From e289dd43d2b6e1afee7f15abe7c16cf536b1b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 18/40] fix: resolve paths in the in-memory filesystem like
 POSIX and guard it with one lock

---
 pkg/fs/memfs.go | 496 +++++++++++++++++++++++++-----------------------
 1 file changed, 255 insertions(+), 241 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index acce239..e14ee75 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -16,7 +16,6 @@ package fs
 
 import (
 	"archive/tar"
-	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -39,6 +38,8 @@ const (
 )
 
 type memFS struct {
+	// mu guards the tree and everything in its nodes.
+	mu   sync.RWMutex
 	tree *node
 }
 
@@ -54,82 +55,117 @@ func NewMemFS() FullFS {
 	}
 }
 
-// getNode returns the node for the given path. If the path is not found, it
+// getNode returns the node for the given path, following symlinks. If the path is not found, it
 // returns an error.
 func (m *memFS) getNode(path string) (*node, error) {
-	return m.getNodeCountLinks(path, 0)
+	return m.lookup(path, true)
 }
-func (m *memFS) getNodeCountLinks(path string, linkDepth int) (*node, error) {
-	if path == "/" || path == "." {
-		return m.tree, nil
+
+// lookup returns the node for the given path. If the last element of the path is a symlink, it
+// is only followed if follow is set.
+func (m *memFS) lookup(path string, follow bool) (*node, error) {
+	links := 0
+	chain, err := m.walk([]*node{m.tree}, path, follow, &links)
+	if err != nil {
+		return nil, err
 	}
-	parts := strings.Split(path, pathSep)
-	node := m.tree
-	traversed := make([]string, 0)
-	for _, part := range parts {
+	return chain[len(chain)-1], nil
+}
+
+// walk resolves path starting at the directory that chain, the nodes from the root on, leads to,
+// and returns the chain of the result.
+func (m *memFS) walk(chain []*node, path string, follow bool, links *int) ([]*node, error) {
+	if strings.HasPrefix(path, pathSep) {
+		chain = chain[:1]
+	}
+	parts := strings.Split(strings.TrimRight(path, pathSep), pathSep)
+	for i, part := range parts {
 		if part == "" {
 			continue
 		}
-		if node.children == nil {
+		dir := chain[len(chain)-1]
+		if !dir.dir {
 			return nil, os.ErrNotExist
 		}
-		var ok bool
-		node.mu.Lock()
-		childNode, ok := node.children[part]
-		// immediately unlock, no need to wait for defer. This is *really* important in the
-		// case of symlinks below
-		node.mu.Unlock()
+		switch part {
+		case ".":
+			continue
+		case "..":
+			// the root is its own parent
+			if len(chain) > 1 {
+				chain = chain[:len(chain)-1]
+			}
+			continue
+		}
+		child, ok := dir.children[part]
 		if !ok {
 			return nil, os.ErrNotExist
 		}
-		// what if it is a symlink?
-		if childNode.mode&os.ModeSymlink != 0 {
-			newDepth := linkDepth + 1
-			if newDepth > maxLinks {
+		// a symlink is relative to the directory that it is in
+		if child.mode&os.ModeSymlink != 0 && (follow || i < len(parts)-1) {
+			*links++
+			if *links > maxLinks {
 				return nil, fmt.Errorf("maximum symlink depth exceeded")
 			}
-			// getNode requires working on the absolute path, so we just resolve the path to an absolute path,
-			// rather than struggling to clean up the path.
-			// But, we have to make sure that we set it relative to where we are currently, rather than the parent of the path.
-			// For example, /usr/lib64/foo/bar when /usr/lib64 -> lib, we want to resolve to /usr/lib rather than /usr/lib64/foo/lib
-			linkTarget := childNode.linkTarget
-			if !filepath.IsAbs(linkTarget) {
-				linkTarget = filepath.Join(strings.Join(traversed, pathSep), linkTarget)
-			}
-			// now we have the absolute path, we can get the node
-			// but that absolute path can cause us to try and hit something that is already locked
-			// and since we are recursing, it will not get freed until we return
-			// leading to a deadlock race condition
-			targetNode, err := m.getNodeCountLinks(linkTarget, newDepth)
-			if err != nil {
+			var err error
+			if chain, err = m.walk(chain, child.linkTarget, true, links); err != nil {
 				return nil, err
 			}
-			childNode = targetNode
+			continue
 		}
-		node = childNode
-		traversed = append(traversed, part)
+		// never append to the nodes of the caller
+		chain = append(chain[:len(chain):len(chain)], child)
 	}
-	return node, nil
+	return chain, nil
 }
-func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
-	// first see if the parent exists
-	parent := filepath.Dir(path)
-	anode, err := m.getNode(parent)
+
+// splitLast splits the path into the part before the last element and the last element.
+func splitLast(path string) (dir, base string) {
+	path = strings.TrimRight(path, pathSep)
+	i := strings.LastIndex(path, pathSep)
+	return path[:i+1], path[i+1:]
+}
+
+// getParent returns the directory that holds the last element of path, and that element, which
+// is not resolved.
+func (m *memFS) getParent(path string) (*node, string, error) {
+	// an absolute path without elements is the root
+	dir, base := splitLast(path)
+	parent, err := m.getNode(dir)
+	if err != nil {
+		return nil, "", err
+	}
+	if !parent.dir {
+		return nil, "", fmt.Errorf("parent is not a directory")
+	}
+	return parent, base, nil
+}
+
+// isSpecial if the last element of a path is not the name of an entry
+func isSpecial(base string) bool {
+	return base == "" || base == "." || base == ".."
+}
+
+// add the node as a new entry
+func (m *memFS) add(path string, n *node) error {
+	parent, base, err := m.getParent(path)
 	if err != nil {
 		return err
 	}
-	if anode.mode&fs.ModeDir == 0 {
-		return fmt.Errorf("parent is not a directory")
+	if isSpecial(base) {
+		return os.ErrExist
 	}
-	// see if it exists
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[filepath.Base(path)]; ok {
+	if _, ok := parent.children[base]; ok {
 		return os.ErrExist
 	}
-	// now create the directory
-	anode.children[filepath.Base(path)] = &node{
-		name:       filepath.Base(path),
+	n.name = base
+	parent.children[base] = n
+	return nil
+}
+
+func newDirNode(name string, perms fs.FileMode) *node {
+	return &node{
+		name:       name,
 		mode:       fs.ModeDir | perms,
 		dir:        true,
 		modTime:    time.Now(),
@@ -137,26 +173,28 @@ func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
 		children:   map[string]*node{},
 		xattrs:     map[string][]byte{},
 	}
-	return nil
+}
+
+func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	return m.add(path, newDirNode("", perms))
 }
 
 func (m *memFS) Stat(path string) (fs.FileInfo, error) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return nil, err
 	}
-	if node.mode&fs.ModeSymlink != 0 {
-		targetNode, err := m.getNode(node.linkTarget)
-		if err != nil {
-			return nil, err
-		}
-		node = targetNode
-	}
 	return node.fileInfo(path), nil
 }
 
 func (m *memFS) Lstat(path string) (fs.FileInfo, error) {
-	node, err := m.getNode(path)
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	node, err := m.lookup(path, false)
 	if err != nil {
 		return nil, err
 	}
@@ -164,50 +202,28 @@ func (m *memFS) Lstat(path string) (fs.FileInfo, error) {
 }
 
 func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
-	parts := strings.Split(path, pathSep)
-	traversed := make([]string, 0)
-	anode := m.tree
-	for _, part := range parts {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	chain := []*node{m.tree}
+	links := 0
+	for _, part := range strings.Split(path, pathSep) {
 		if part == "" {
 			continue
 		}
-		if anode.children == nil {
-			anode.children = map[string]*node{}
-		}
-		var ok bool
-		anode.mu.Lock()
-		newnode, ok := anode.children[part]
-		if !ok {
-			newnode = &node{
-				name:       part,
-				mode:       fs.ModeDir | perm,
-				dir:        true,
-				modTime:    time.Now(),
-				createTime: time.Now(),
-				children:   map[string]*node{},
-				xattrs:     map[string][]byte{},
+		dir := chain[len(chain)-1]
+		if !isSpecial(part) {
+			if _, ok := dir.children[part]; !ok {
+				dir.children[part] = newDirNode(part, perm)
 			}
-			anode.children[part] = newnode
 		}
-		anode.mu.Unlock()
-		// what if it is a symlink?
-		if newnode.mode&os.ModeSymlink != 0 {
-			linkTarget := newnode.linkTarget
-			if !filepath.IsAbs(linkTarget) {
-				linkTarget = filepath.Join(strings.Join(traversed, pathSep), linkTarget)
-			}
-
-			targetNode, err := m.getNode(linkTarget)
-			if err != nil {
-				return err
-			}
-			newnode = targetNode
+		next, err := m.walk(chain, part, true, &links)
+		if err != nil {
+			return err
 		}
-		if !newnode.dir {
+		if !next[len(next)-1].dir {
 			return fmt.Errorf("path is not a directory")
 		}
-		anode = newnode
-		traversed = append(traversed, part)
+		chain = next
 	}
 	return nil
 }
@@ -217,86 +233,91 @@ func (m *memFS) Open(name string) (fs.File, error) {
 }
 
 func (m *memFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
-	return m.openFile(name, flag, perm, 0)
-}
-func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int) (File, error) {
-	parent := filepath.Dir(name)
-	base := filepath.Base(name)
-	parentAnode, err := m.getNode(parent)
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	anode, err := m.openNode(name, flag, perm)
 	if err != nil {
 		return nil, err
 	}
-	if !parentAnode.dir {
-		return nil, fmt.Errorf("parent is not a directory")
-	}
-	if parentAnode.children == nil {
-		parentAnode.children = map[string]*node{}
-	}
-	parentAnode.mu.Lock()
-	anode, ok := parentAnode.children[base]
-	if !ok && flag&os.O_CREATE == 0 {
-		parentAnode.mu.Unlock()
-		return nil, os.ErrNotExist
-	}
-	if anode != nil && anode.dir {
-		parentAnode.mu.Unlock()
-		return nil, fmt.Errorf("is a directory")
-	}
-	if flag&os.O_CREATE != 0 && !ok {
-		// create the file
-		anode = &node{
-			name:       base,
-			mode:       perm,
-			dir:        false,
-			modTime:    time.Now(),
-			createTime: time.Now(),
-			xattrs:     map[string][]byte{},
+	return newMemFile(anode, name, m, flag), nil
+}
+
+// openNode returns the node of the file to open, creating it if that is asked for.
+func (m *memFS) openNode(name string, flag int, perm fs.FileMode) (*node, error) {
+	var (
+		chain = []*node{m.tree}
+		links int
+		err   error
+	)
+	for {
+		dir, base := splitLast(name)
+		chain, err = m.walk(chain, dir, true, &links)
+		if err != nil {
+			return nil, err
 		}
-		parentAnode.children[base] = anode
-	}
-	parentAnode.mu.Unlock()
-	// what if it is a symlink? Follow the symlink
-	if anode.mode&os.ModeSymlink != 0 {
-		localCount := linkCount + 1
-		if localCount > maxLinks {
-			return nil, fmt.Errorf("too many links")
+		parent := chain[len(chain)-1]
+		if !parent.dir {
+			return nil, fmt.Errorf("parent is not a directory")
 		}
-		linkTarget := anode.linkTarget
-		if !filepath.IsAbs(linkTarget) {
-			linkTarget = filepath.Join(parent, linkTarget)
+		if isSpecial(base) {
+			return nil, fmt.Errorf("is a directory")
 		}
-		return m.openFile(linkTarget, flag, perm, localCount)
+		anode, ok := parent.children[base]
+		switch {
+		case !ok && flag&os.O_CREATE == 0:
+			return nil, os.ErrNotExist
+		case !ok:
+			// create the file
+			anode = &node{
+				name:       base,
+				mode:       perm,
+				dir:        false,
+				modTime:    time.Now(),
+				createTime: time.Now(),
+				xattrs:     map[string][]byte{},
+			}
+			parent.children[base] = anode
+			return anode, nil
+		case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
+			return nil, os.ErrExist
+		case anode.dir:
+			return nil, fmt.Errorf("is a directory")
+		case anode.mode&os.ModeSymlink == 0:
+			return anode, nil
+		}
+		// what if it is a symlink? Follow the symlink
+		links++
+		if links > maxLinks {
+			return nil, fmt.Errorf("too many links")
+		}
+		name = anode.linkTarget
 	}
-
-	return newMemFile(anode, name, m, flag), nil
 }
 
 func (m *memFS) ReadFile(name string) ([]byte, error) {
-	f, err := m.OpenFile(name, os.O_RDONLY, 0o644)
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	anode, err := m.openNode(name, os.O_RDONLY, 0)
 	if err != nil {
 		return nil, err
 	}
-	defer f.Close()
-	b := bytes.NewBuffer(nil)
-	if _, err := io.Copy(b, f); err != nil {
-		return nil, err
-	}
-	return b.Bytes(), nil
+	return append([]byte{}, anode.data...), nil
 }
 
 func (m *memFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
-	f, err := m.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, mode)
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	anode, err := m.openNode(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, mode)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-	if _, err := io.Copy(f, bytes.NewBuffer(b)); err != nil {
-		return err
-	}
+	anode.data = append([]byte{}, b...)
 	return nil
 }
 
 func (m *memFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	anode, err := m.getNode(name)
 	if err != nil {
 		return nil, err
@@ -320,43 +341,26 @@ func (m *memFS) OpenReaderAt(name string) (File, error) {
 }
 
 func (m *memFS) Mknod(path string, mode uint32, dev int) error {
-	parent := filepath.Dir(path)
-	base := filepath.Base(path)
-	anode, err := m.getNode(parent)
-	if err != nil {
-		return err
-	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[base]; ok {
-		return os.ErrExist
-	}
-	anode.children[base] = &node{
-		name:       base,
-		mode:       fs.FileMode(mode) | os.ModeCharDevice | os.ModeDevice,
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	// the type in mode is not part of the permissions
+	return m.add(path, &node{
+		mode:       fs.FileMode(mode).Perm() | os.ModeCharDevice | os.ModeDevice,
 		modTime:    time.Now(),
 		createTime: time.Now(),
 		major:      unix.Major(uint64(dev)),
 		minor:      unix.Minor(uint64(dev)),
 		xattrs:     map[string][]byte{},
-	}
-
-	return nil
+	})
 }
 
 func (m *memFS) Readnod(path string) (dev int, err error) {
-	parent := filepath.Dir(path)
-	base := filepath.Base(path)
-	parentNode, err := m.getNode(parent)
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	anode, err := m.lookup(path, false)
 	if err != nil {
 		return 0, err
 	}
-	parentNode.mu.Lock()
-	defer parentNode.mu.Unlock()
-	anode, ok := parentNode.children[base]
-	if !ok {
-		return 0, os.ErrNotExist
-	}
 	if anode.mode&os.ModeDevice != os.ModeDevice || anode.mode&os.ModeCharDevice != os.ModeCharDevice {
 		return 0, fmt.Errorf("not a device")
 	}
@@ -364,6 +368,8 @@ func (m *memFS) Readnod(path string) (dev int, err error) {
 }
 
 func (m *memFS) Chmod(path string, perm fs.FileMode) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	anode, err := m.getNode(path)
 	if err != nil {
 		return err
@@ -373,6 +379,8 @@ func (m *memFS) Chmod(path string, perm fs.FileMode) error {
 	return nil
 }
 func (m *memFS) Chown(path string, uid, gid int) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	anode, err := m.getNode(path)
 	if err != nil {
 		return err
@@ -387,61 +395,45 @@ func (m *memFS) Create(name string) (File, error) {
 }
 
 func (m *memFS) Symlink(oldname, newname string) error {
-	parent := filepath.Dir(newname)
-	base := filepath.Base(newname)
-	anode, err := m.getNode(parent)
-	if err != nil {
-		return err
-	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[base]; ok {
-		return os.ErrExist
-	}
-	anode.children[base] = &node{
-		name:       base,
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	return m.add(newname, &node{
 		mode:       0o777 | os.ModeSymlink,
 		modTime:    time.Now(),
 		linkTarget: oldname,
 		xattrs:     map[string][]byte{},
-	}
-	return nil
+	})
 }
 
 func (m *memFS) Link(oldname, newname string) error {
-	parent := filepath.Dir(newname)
-	base := filepath.Base(newname)
-	anode, err := m.getNode(parent)
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	target, err := m.lookup(oldname, false)
 	if err != nil {
-		return err
+		return os.ErrNotExist
 	}
-	target, err := m.getNode(oldname)
+	parent, base, err := m.getParent(newname)
 	if err != nil {
-		return os.ErrNotExist
+		return err
 	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[base]; ok {
+	if _, ok := parent.children[base]; ok || isSpecial(base) {
 		return os.ErrExist
 	}
-	anode.children[base] = target
+	if target.dir {
+		return fmt.Errorf("hard link to a directory")
+	}
+	parent.children[base] = target
 	target.linkCount++
 	return nil
 }
 
 func (m *memFS) Readlink(name string) (target string, err error) {
-	parent := filepath.Dir(name)
-	base := filepath.Base(name)
-	parentNode, err := m.getNode(parent)
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	anode, err := m.lookup(name, false)
 	if err != nil {
 		return "", err
 	}
-	parentNode.mu.Lock()
-	defer parentNode.mu.Unlock()
-	anode, ok := parentNode.children[base]
-	if !ok {
-		return "", os.ErrNotExist
-	}
 	if anode.mode&os.ModeSymlink == 0 {
 		return "", fmt.Errorf("file is not a link")
 	}
@@ -449,55 +441,60 @@ func (m *memFS) Readlink(name string) (target string, err error) {
 }
 
 func (m *memFS) Remove(name string) error {
-	parent := filepath.Dir(name)
-	base := filepath.Base(name)
-	anode, err := m.getNode(parent)
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	parent, base, err := m.getParent(name)
 	if err != nil {
 		return err
 	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
-	if _, ok := anode.children[base]; !ok {
+	if isSpecial(base) {
+		return os.ErrInvalid
+	}
+	anode, ok := parent.children[base]
+	if !ok {
 		return os.ErrNotExist
 	}
-	if anode.children[base].linkCount > 0 {
-		anode.children[base].linkCount--
+	if len(anode.children) > 0 {
+		return fmt.Errorf("directory not empty")
+	}
+	if anode.linkCount > 0 {
+		anode.linkCount--
 	}
-	delete(anode.children, base)
+	delete(parent.children, base)
 	return nil
 }
 
 func (m *memFS) SetXattr(path string, attr string, data []byte) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return os.ErrNotExist
 	}
-	node.mu.Lock()
-	defer node.mu.Unlock()
-	node.xattrs[attr] = data
+	node.xattrs[attr] = append([]byte{}, data...)
 	return nil
 }
 func (m *memFS) GetXattr(path string, attr string) ([]byte, error) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return nil, os.ErrNotExist
 	}
-	node.mu.Lock()
-	defer node.mu.Unlock()
 	data, ok := node.xattrs[attr]
 	if !ok {
 		return nil, os.ErrNotExist
 	}
-	return data, nil
+	return append([]byte{}, data...), nil
 }
 
 func (m *memFS) RemoveXattr(path string, attr string) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return os.ErrNotExist
 	}
-	node.mu.Lock()
-	defer node.mu.Unlock()
 	// RemoveXattr is meant to ensure it does not exist; if it does not exist already, that is fine
 	if _, ok := node.xattrs[attr]; !ok {
 		return nil
@@ -506,12 +503,12 @@ func (m *memFS) RemoveXattr(path string, attr string) error {
 	return nil
 }
 func (m *memFS) ListXattrs(path string) (map[string][]byte, error) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return nil, os.ErrNotExist
 	}
-	node.mu.Lock()
-	defer node.mu.Unlock()
 	// do not return the original, as someone might change it by accident.
 	// Return a copy
 	ret := make(map[string][]byte)
@@ -551,7 +548,9 @@ func (f *memFile) Stat() (fs.FileInfo, error) {
 	if f.node == nil || f.fs == nil {
 		return nil, os.ErrClosed
 	}
-	return f.fs.Stat(f.name)
+	f.fs.mu.RLock()
+	defer f.fs.mu.RUnlock()
+	return f.node.fileInfo(f.name), nil
 }
 
 func (f *memFile) Close() error {
@@ -567,6 +566,8 @@ func (f *memFile) Read(b []byte) (int, error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	f.fs.mu.RLock()
+	defer f.fs.mu.RUnlock()
 	if f.offset >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
@@ -579,6 +580,8 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	f.fs.mu.RLock()
+	defer f.fs.mu.RUnlock()
 	if off >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
@@ -589,6 +592,8 @@ func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	f.fs.mu.RLock()
+	defer f.fs.mu.RUnlock()
 	switch whence {
 	case io.SeekStart:
 		f.offset = offset
@@ -609,6 +614,8 @@ func (f *memFile) Write(p []byte) (n int, err error) {
 	if f.openMode&os.O_APPEND != 0 && f.openMode&os.O_RDWR != 0 && f.openMode&os.O_WRONLY != 0 {
 		return 0, errors.New("file not opened in write mode")
 	}
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
 	if f.offset+int64(len(p)) > int64(len(f.node.data)) {
 		f.node.data = append(f.node.data[:f.offset], p...)
 	} else {
@@ -630,27 +637,34 @@ type node struct {
 	linkCount    int // extra links, so 0 means a single pointer. O-based, like most compuuter counting systems.
 	major, minor uint32
 	children     map[string]*node
-	mu           sync.Mutex
 	xattrs       map[string][]byte
 }
 
+// fileInfo describes the node as it is now.
 func (n *node) fileInfo(name string) fs.FileInfo {
 	return &memFileInfo{
-		node: n,
-		name: name,
+		name:    filepath.Base(name),
+		size:    int64(len(n.data)),
+		mode:    n.mode,
+		modTime: n.modTime,
+		uid:     n.uid,
+		gid:     n.gid,
 	}
 }
 
 type memFileInfo struct {
-	*node
-	name string
+	name     string
+	size     int64
+	mode     fs.FileMode
+	modTime  time.Time
+	uid, gid int
 }
 
 func (m *memFileInfo) Name() string {
 	return m.name
 }
 func (m *memFileInfo) Size() int64 {
-	return int64(len(m.data))
+	return m.size
 }
 func (m *memFileInfo) Mode() fs.FileMode {
 	return m.mode
@@ -659,7 +673,7 @@ func (m *memFileInfo) ModTime() time.Time {
 	return m.modTime
 }
 func (m *memFileInfo) IsDir() bool {
-	return m.dir
+	return m.mode.IsDir()
 }
 func (m *memFileInfo) Sys() any {
 	return &tar.Header{
-- 
2.43.0


From ab5701384400e0d79b7609ca53a55d33fc5e27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 19/40] fix: give in-memory file handles POSIX read, write,
 seek and append semantics

---
 pkg/fs/memfs.go | 60 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index e14ee75..d9427a9 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -535,9 +535,6 @@ func newMemFile(node *node, name string, memfs *memFS, openMode int) *memFile {
 		name:     name,
 		openMode: openMode,
 	}
-	if openMode&os.O_APPEND != 0 {
-		m.offset = int64(len(node.data))
-	}
 	if openMode&os.O_TRUNC != 0 {
 		node.data = nil
 	}
@@ -562,10 +559,25 @@ func (f *memFile) Close() error {
 	return nil
 }
 
+// access returns an error if the file was not opened for what is to be done: os.O_RDONLY or os.O_WRONLY
+func (f *memFile) access(mode int) error {
+	opened := f.openMode & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
+	if opened != os.O_RDWR && opened != mode {
+		return errors.New("file not opened in this mode")
+	}
+	return nil
+}
+
 func (f *memFile) Read(b []byte) (int, error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	if err := f.access(os.O_RDONLY); err != nil {
+		return 0, err
+	}
+	if len(b) == 0 {
+		return 0, nil
+	}
 	f.fs.mu.RLock()
 	defer f.fs.mu.RUnlock()
 	if f.offset >= int64(len(f.node.data)) {
@@ -580,14 +592,23 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	if err := f.access(os.O_RDONLY); err != nil {
+		return 0, err
+	}
+	if off < 0 {
+		return 0, errors.New("negative offset")
+	}
 	f.fs.mu.RLock()
 	defer f.fs.mu.RUnlock()
-	if off >= int64(len(f.node.data)) {
-		return 0, io.EOF
+	if off < int64(len(f.node.data)) {
+		n = copy(p, f.node.data[off:])
+	}
+	if n < len(p) {
+		return n, io.EOF
 	}
-	n = copy(p, f.node.data[off:])
 	return n, nil
 }
+
 func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
@@ -596,14 +617,17 @@ func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 	defer f.fs.mu.RUnlock()
 	switch whence {
 	case io.SeekStart:
-		f.offset = offset
 	case io.SeekCurrent:
-		f.offset += offset
+		offset += f.offset
 	case io.SeekEnd:
-		f.offset = int64(len(f.node.data)) + offset
+		offset += int64(len(f.node.data))
 	default:
 		return 0, errors.New("invalid whence")
 	}
+	if offset < 0 {
+		return 0, errors.New("negative position")
+	}
+	f.offset = offset
 	return f.offset, nil
 }
 
@@ -611,16 +635,22 @@ func (f *memFile) Write(p []byte) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
-	if f.openMode&os.O_APPEND != 0 && f.openMode&os.O_RDWR != 0 && f.openMode&os.O_WRONLY != 0 {
-		return 0, errors.New("file not opened in write mode")
+	if err := f.access(os.O_WRONLY); err != nil {
+		return 0, err
+	}
+	if len(p) == 0 {
+		return 0, nil
 	}
 	f.fs.mu.Lock()
 	defer f.fs.mu.Unlock()
-	if f.offset+int64(len(p)) > int64(len(f.node.data)) {
-		f.node.data = append(f.node.data[:f.offset], p...)
-	} else {
-		copy(f.node.data[f.offset:], p)
+	if f.openMode&os.O_APPEND != 0 {
+		f.offset = int64(len(f.node.data))
+	}
+	if gap := f.offset - int64(len(f.node.data)); gap > 0 {
+		f.node.data = append(f.node.data, make([]byte, gap)...)
 	}
+	n = copy(f.node.data[f.offset:], p)
+	f.node.data = append(f.node.data, p[n:]...)
 	f.offset += int64(len(p))
 	return len(p), nil
 }
-- 
2.43.0


From 1dd2a81e874e9501d5de1dd899b3f1e5a566f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 20/40] fix: resolve paths of the on-disk filesystem in memory
 and keep disk and view in step

---
 pkg/fs/memfs.go  | 174 +++++++++----
 pkg/fs/rwosfs.go | 665 ++++++++++++++++++++++-------------------------
 2 files changed, 438 insertions(+), 401 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index d9427a9..0fd6bb4 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -44,6 +44,10 @@ type memFS struct {
 }
 
 func NewMemFS() FullFS {
+	return newMemFS()
+}
+
+func newMemFS() *memFS {
 	return &memFS{
 		tree: &node{
 			dir:      true,
@@ -146,17 +150,23 @@ func isSpecial(base string) bool {
 	return base == "" || base == "." || base == ".."
 }
 
-// add the node as a new entry
-func (m *memFS) add(path string, n *node) error {
+// newEntry returns the directory and the name for a new entry at path.
+func (m *memFS) newEntry(path string) (*node, string, error) {
 	parent, base, err := m.getParent(path)
 	if err != nil {
-		return err
+		return nil, "", err
 	}
-	if isSpecial(base) {
-		return os.ErrExist
+	if _, ok := parent.children[base]; ok || isSpecial(base) {
+		return nil, "", os.ErrExist
 	}
-	if _, ok := parent.children[base]; ok {
-		return os.ErrExist
+	return parent, base, nil
+}
+
+// add the node as a new entry
+func (m *memFS) add(path string, n *node) error {
+	parent, base, err := m.newEntry(path)
+	if err != nil {
+		return err
 	}
 	n.name = base
 	parent.children[base] = n
@@ -204,6 +214,14 @@ func (m *memFS) Lstat(path string) (fs.FileInfo, error) {
 func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	return m.mkdirAll(path, func(parent *node, base string) error {
+		parent.children[base] = newDirNode(base, perm)
+		return nil
+	})
+}
+
+// mkdirAll calls mkdir for each directory of path that does not exist.
+func (m *memFS) mkdirAll(path string, mkdir func(parent *node, base string) error) error {
 	chain := []*node{m.tree}
 	links := 0
 	for _, part := range strings.Split(path, pathSep) {
@@ -213,7 +231,9 @@ func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 		dir := chain[len(chain)-1]
 		if !isSpecial(part) {
 			if _, ok := dir.children[part]; !ok {
-				dir.children[part] = newDirNode(part, perm)
+				if err := mkdir(dir, part); err != nil {
+					return err
+				}
 			}
 		}
 		next, err := m.walk(chain, part, true, &links)
@@ -244,51 +264,66 @@ func (m *memFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error)
 
 // openNode returns the node of the file to open, creating it if that is asked for.
 func (m *memFS) openNode(name string, flag int, perm fs.FileMode) (*node, error) {
+	parent, base, anode, err := m.findFile(name, flag)
+	if err != nil || anode != nil {
+		return anode, err
+	}
+	// create the file
+	anode = newFileNode(base, perm)
+	parent.children[base] = anode
+	return anode, nil
+}
+
+func newFileNode(name string, perm fs.FileMode) *node {
+	return &node{
+		name:       name,
+		mode:       perm,
+		dir:        false,
+		modTime:    time.Now(),
+		createTime: time.Now(),
+		xattrs:     map[string][]byte{},
+	}
+}
+
+// findFile returns the node of the file to open, or none if it is to be created, and then the
+// directory and the name to create it with.
+func (m *memFS) findFile(name string, flag int) (parent *node, base string, anode *node, err error) {
 	var (
 		chain = []*node{m.tree}
 		links int
-		err   error
 	)
 	for {
-		dir, base := splitLast(name)
+		var dir string
+		dir, base = splitLast(name)
 		chain, err = m.walk(chain, dir, true, &links)
 		if err != nil {
-			return nil, err
+			return nil, "", nil, err
 		}
-		parent := chain[len(chain)-1]
+		parent = chain[len(chain)-1]
 		if !parent.dir {
-			return nil, fmt.Errorf("parent is not a directory")
+			return nil, "", nil, fmt.Errorf("parent is not a directory")
 		}
 		if isSpecial(base) {
-			return nil, fmt.Errorf("is a directory")
+			return nil, "", nil, fmt.Errorf("is a directory")
 		}
-		anode, ok := parent.children[base]
+		var ok bool
+		anode, ok = parent.children[base]
 		switch {
 		case !ok && flag&os.O_CREATE == 0:
-			return nil, os.ErrNotExist
+			return nil, "", nil, os.ErrNotExist
 		case !ok:
-			// create the file
-			anode = &node{
-				name:       base,
-				mode:       perm,
-				dir:        false,
-				modTime:    time.Now(),
-				createTime: time.Now(),
-				xattrs:     map[string][]byte{},
-			}
-			parent.children[base] = anode
-			return anode, nil
+			return parent, base, nil, nil
 		case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
-			return nil, os.ErrExist
+			return nil, "", nil, os.ErrExist
 		case anode.dir:
-			return nil, fmt.Errorf("is a directory")
+			return nil, "", nil, fmt.Errorf("is a directory")
 		case anode.mode&os.ModeSymlink == 0:
-			return anode, nil
+			return parent, base, anode, nil
 		}
 		// what if it is a symlink? Follow the symlink
 		links++
 		if links > maxLinks {
-			return nil, fmt.Errorf("too many links")
+			return nil, "", nil, fmt.Errorf("too many links")
 		}
 		name = anode.linkTarget
 	}
@@ -343,15 +378,20 @@ func (m *memFS) OpenReaderAt(name string) (File, error) {
 func (m *memFS) Mknod(path string, mode uint32, dev int) error {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	// the type in mode is not part of the permissions
-	return m.add(path, &node{
+	return m.add(path, newDeviceNode("", mode, dev))
+}
+
+func newDeviceNode(name string, mode uint32, dev int) *node {
+	return &node{
+		name: name,
+		// the type in mode is not part of the permissions
 		mode:       fs.FileMode(mode).Perm() | os.ModeCharDevice | os.ModeDevice,
 		modTime:    time.Now(),
 		createTime: time.Now(),
 		major:      unix.Major(uint64(dev)),
 		minor:      unix.Minor(uint64(dev)),
 		xattrs:     map[string][]byte{},
-	})
+	}
 }
 
 func (m *memFS) Readnod(path string) (dev int, err error) {
@@ -397,34 +437,45 @@ func (m *memFS) Create(name string) (File, error) {
 func (m *memFS) Symlink(oldname, newname string) error {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	return m.add(newname, &node{
+	return m.add(newname, newSymlinkNode("", oldname))
+}
+
+func newSymlinkNode(name, target string) *node {
+	return &node{
+		name:       name,
 		mode:       0o777 | os.ModeSymlink,
 		modTime:    time.Now(),
-		linkTarget: oldname,
+		linkTarget: target,
 		xattrs:     map[string][]byte{},
-	})
+	}
 }
 
 func (m *memFS) Link(oldname, newname string) error {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	target, err := m.lookup(oldname, false)
+	target, parent, base, err := m.newLink(oldname, newname)
 	if err != nil {
-		return os.ErrNotExist
+		return err
 	}
-	parent, base, err := m.getParent(newname)
+	parent.children[base] = target
+	target.linkCount++
+	return nil
+}
+
+// newLink returns the node to link to, and the directory and the name of the new link.
+func (m *memFS) newLink(oldname, newname string) (target, parent *node, base string, err error) {
+	target, err = m.lookup(oldname, false)
 	if err != nil {
-		return err
+		return nil, nil, "", os.ErrNotExist
 	}
-	if _, ok := parent.children[base]; ok || isSpecial(base) {
-		return os.ErrExist
+	parent, base, err = m.newEntry(newname)
+	if err != nil {
+		return nil, nil, "", err
 	}
 	if target.dir {
-		return fmt.Errorf("hard link to a directory")
+		return nil, nil, "", fmt.Errorf("hard link to a directory")
 	}
-	parent.children[base] = target
-	target.linkCount++
-	return nil
+	return target, parent, base, nil
 }
 
 func (m *memFS) Readlink(name string) (target string, err error) {
@@ -443,25 +494,39 @@ func (m *memFS) Readlink(name string) (target string, err error) {
 func (m *memFS) Remove(name string) error {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	parent, base, err := m.getParent(name)
+	parent, base, err := m.findRemovable(name)
 	if err != nil {
 		return err
 	}
+	parent.remove(base)
+	return nil
+}
+
+// findRemovable returns the directory and the name of the entry to remove.
+func (m *memFS) findRemovable(name string) (*node, string, error) {
+	parent, base, err := m.getParent(name)
+	if err != nil {
+		return nil, "", err
+	}
 	if isSpecial(base) {
-		return os.ErrInvalid
+		return nil, "", os.ErrInvalid
 	}
 	anode, ok := parent.children[base]
 	if !ok {
-		return os.ErrNotExist
+		return nil, "", os.ErrNotExist
 	}
 	if len(anode.children) > 0 {
-		return fmt.Errorf("directory not empty")
+		return nil, "", fmt.Errorf("directory not empty")
 	}
-	if anode.linkCount > 0 {
+	return parent, base, nil
+}
+
+// remove the entry from the directory
+func (n *node) remove(base string) {
+	if anode := n.children[base]; anode.linkCount > 0 {
 		anode.linkCount--
 	}
-	delete(parent.children, base)
-	return nil
+	delete(n.children, base)
 }
 
 func (m *memFS) SetXattr(path string, attr string, data []byte) error {
@@ -668,6 +733,7 @@ type node struct {
 	major, minor uint32
 	children     map[string]*node
 	xattrs       map[string][]byte
+	onDisk       []string // where it is on disk, for dirFS
 }
 
 // fileInfo describes the node as it is now.
diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 2b659fe..95e2973 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -16,12 +16,12 @@ package fs
 
 import (
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"sort"
 	"strings"
-	"sync"
 	"syscall"
 	"time"
 
@@ -66,7 +66,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 		}
 	}
 
-	m := NewMemFS()
+	m := newMemFS()
 
 	// check if the underlying filesystem is case-sensitive
 	fi, err := os.Stat(dir)
@@ -109,68 +109,81 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 		}
 	}
 
-	var caseMap map[string]string
-	if !caseSensitive {
-		caseMap = map[string]string{}
-	}
 	f := &dirFS{
 		base:      dir,
 		overrides: m,
-		caseMap:   caseMap,
 	}
+	if !caseSensitive {
+		f.caseMap = map[string]string{}
+	}
+	m.tree.onDisk = []string{dir}
 	// need to populate the overrides with appropriate info
 	root := os.DirFS(dir)
 
 	_ = fs.WalkDir(root, ".", func(path string, d fs.DirEntry, err error) error {
-		if err != nil {
+		if path == "." {
 			return err
 		}
-		if path == "." {
+		if err != nil {
+			// a directory that cannot be read is there nevertheless
 			return nil
 		}
 		fi, err := d.Info()
 		if err != nil {
 			return err
 		}
-		mode := fi.Mode()
-		perm := mode.Perm()
-		switch mode.Type() {
-		case fs.ModeDir:
-			fullPerm := os.ModeDir | perm
-			err = f.overrides.Mkdir(path, fullPerm)
-		case fs.ModeSymlink:
-			var target string
-			target, err = os.Readlink(filepath.Join(dir, path))
-			if err != nil {
-				err = f.overrides.Symlink(target, path)
-			}
-		case fs.ModeCharDevice:
-			var dev int
-			sys := fi.Sys()
-			st1, ok1 := sys.(*syscall.Stat_t)
-			st2, ok2 := sys.(*unix.Stat_t)
-			switch {
-			case ok1:
-				dev = int(st1.Rdev)
-			case ok2:
-				dev = int(st2.Rdev)
-			default:
-				return fmt.Errorf("unsupported type %T", sys)
-			}
-			err = f.overrides.Mknod(path, uint32(unix.S_IFCHR|mode), dev)
-		default:
-			var memFile File
-			memFile, err = f.overrides.OpenFile(path, os.O_CREATE, perm)
-			if memFile != nil {
-				_ = memFile.Close()
-			}
-		}
-		return err
+		return f.adopt(path, fi)
 	})
 
 	return f
 }
 
+// adopt records what is on disk at path in memory.
+func (f *dirFS) adopt(path string, fi fs.FileInfo) error {
+	parent, base, err := f.overrides.newEntry(path)
+	if err != nil {
+		return err
+	}
+	var (
+		n    *node
+		mode = fi.Mode()
+		perm = mode &^ fs.ModeType
+	)
+	onDisk := f.place(parent, base)
+	if onDisk == "" {
+		// differs only in case from one that has been found, so we cannot tell which one we would get
+		return nil
+	}
+	switch mode.Type() {
+	case fs.ModeDir:
+		n = newDirNode(base, perm)
+	case fs.ModeSymlink:
+		target, err := os.Readlink(onDisk)
+		if err != nil {
+			return err
+		}
+		n = newSymlinkNode(base, target)
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
+		var dev int
+		sys := fi.Sys()
+		st1, ok1 := sys.(*syscall.Stat_t)
+		st2, ok2 := sys.(*unix.Stat_t)
+		switch {
+		case ok1:
+			dev = int(st1.Rdev)
+		case ok2:
+			dev = int(st2.Rdev)
+		default:
+			return fmt.Errorf("unsupported type %T", sys)
+		}
+		n = newDeviceNode(base, uint32(perm), dev)
+	default:
+		n = newFileNode(base, perm)
+	}
+	f.insert(parent, base, n, onDisk)
+	return nil
+}
+
 // dirFS represents a FullFS implementation based on a directory on disk.
 // For those features that are not supported, e.g. activities that are non-permissioned
 // or unsupported by the underlying filesystem or operating system, it keeps a separate map
@@ -190,11 +203,14 @@ type dirFS struct {
 	// filesystem or operating system limitations.
 	// It will include all directories, but no file contents.
 	// If there are permissions in memory, they override the disk.
-	overrides FullFS
+	//
+	// Paths are resolved in memory, so that symlinks are never followed on disk, where they might
+	// lead out of the base. Each node has the places on disk where it is, or none if it is in
+	// memory only. The lock of overrides guards all of it.
+	overrides *memFS
 	// caseMap if non-nil, underlying filesystem is case-insensitive, so only one variant of each file
-	// can exist on disk. Maps the case-sensitive to the case-insensitive variant
-	caseMap      map[string]string
-	caseMapMutex sync.Mutex
+	// can exist on disk. Maps the lower-case variant of the place on disk to the one that is there
+	caseMap map[string]string
 }
 
 func (f *dirFS) Readlink(name string) (string, error) {
@@ -216,84 +232,80 @@ func (f *dirFS) Open(name string) (fs.File, error) {
 	return f.open(name)
 }
 
-func (f *dirFS) open(name string) (*fileImpl, error) {
-	fullpath, err := f.sanitizePath(name)
+func (f *dirFS) open(name string) (File, error) {
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	anode, err := f.overrides.getNode(name)
 	if err != nil {
 		return nil, err
 	}
-	baseName := filepath.Base(name)
-	if f.caseSensitiveOnDisk(name) {
-		file, err := os.Open(fullpath)
-		if err == nil {
-			return &fileImpl{
-				file: file,
-				name: baseName,
-			}, nil
-		}
-		if !os.IsPermission(err) {
-			return nil, err
-		}
-		// get the original permissions
-		fi, err := os.Stat(fullpath)
-		if err != nil {
-			return nil, fmt.Errorf("unable to stat file %s: %w", fullpath, err)
-		}
-		// Try to change permissions and open again.
-		if err := os.Chmod(fullpath, 0o600); err != nil {
-			return nil, fmt.Errorf("unable to read file or change permissions: %s", name)
-		}
-		file, err = os.Open(fullpath)
-		if err != nil {
-			return nil, fmt.Errorf("unable to read file even after change permissions: %s", name)
+	fullpath := anode.diskPath()
+	if fullpath == "" {
+		if anode.dir {
+			return nil, fmt.Errorf("is a directory")
 		}
-		perms := fi.Mode()
-		return &fileImpl{
-			file:  file,
-			name:  baseName,
-			perms: &perms,
-		}, nil
+		return newMemFile(anode, name, f.overrides, os.O_RDONLY), nil
 	}
-
-	file, err := f.overrides.OpenReaderAt(name)
+	file, err := os.Open(fullpath)
+	if err == nil || !os.IsPermission(err) {
+		return file, err
+	}
+	// get the original permissions
+	fi, err := os.Lstat(fullpath)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("unable to stat file %s: %w", fullpath, err)
+	}
+	// Try to change permissions and open again.
+	perm := fs.FileMode(0o600)
+	if anode.dir {
+		perm = 0o700
+	}
+	if err := os.Chmod(fullpath, perm); err != nil {
+		return nil, fmt.Errorf("unable to read file or change permissions: %s", name)
+	}
+	file, err = os.Open(fullpath)
+	// the open file does not need them any more
+	if cerr := os.Chmod(fullpath, fi.Mode()); cerr != nil && err == nil {
+		_ = file.Close()
+		return nil, cerr
+	}
+	if err != nil {
+		return nil, fmt.Errorf("unable to read file even after change permissions: %s", name)
 	}
-	return &fileImpl{file: file, name: baseName}, nil
+	return file, nil
 }
 
-// Open open a file for reading. Returns fs.File.
-// If the file has the wrong permissions for reading, it tries to
-// change them, and then change them back when closing.
-// This only works if the user reading the file actually has
-// permissions to change the file permissions.
+// OpenFile opens a file, creating it in memory and on disk if that is asked for and it does not exist.
 func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
-	var (
-		file File
-		err  error
-	)
-	if flag&os.O_CREATE == os.O_CREATE {
-		file, err = f.overrides.OpenFile(name, flag, perm)
-		if err != nil {
-			return nil, err
-		}
-		// do we create it on disk?
-		if f.createOnDisk(name) {
-			_ = file.Close()
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
-			if err != nil {
-				return nil, err
-			}
-		}
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	// a directory can only be read
+	if anode, err := f.overrides.getNode(name); err == nil && anode.dir && flag == os.O_RDONLY && anode.diskPath() != "" {
+		return os.Open(anode.diskPath())
+	}
+	parent, base, anode, err := f.overrides.findFile(name, flag)
+	if err != nil {
+		return nil, err
+	}
+	var onDisk string
+	if anode != nil {
+		onDisk = anode.diskPath()
 	} else {
-		if f.caseSensitiveOnDisk(name) {
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
-		} else {
-			file, err = f.overrides.OpenFile(name, flag, perm)
-		}
-		if err != nil {
+		onDisk = f.place(parent, base)
+	}
+	var file File
+	if onDisk != "" {
+		if file, err = os.OpenFile(onDisk, flag, perm); err != nil {
 			return nil, err
 		}
 	}
+	if anode == nil {
+		anode = newFileNode(base, perm)
+		f.insert(parent, base, anode, onDisk)
+	}
+	if onDisk == "" {
+		file = newMemFile(anode, name, f.overrides, flag)
+	}
 	return file, nil
 }
 
@@ -302,218 +314,252 @@ func (f *dirFS) OpenReaderAt(name string) (File, error) {
 }
 
 func (f *dirFS) Stat(name string) (fs.FileInfo, error) {
-	var (
-		fi  fs.FileInfo
-		err error
-	)
-	mi, err := f.overrides.Stat(name)
+	return f.stat(name, true)
+}
+
+func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
+	return f.stat(name, false)
+}
+
+func (f *dirFS) stat(name string, follow bool) (fs.FileInfo, error) {
+	f.overrides.mu.RLock()
+	defer f.overrides.mu.RUnlock()
+	anode, err := f.overrides.lookup(name, follow)
 	if err != nil {
 		return nil, err
 	}
-	if f.caseSensitiveOnDisk(name) {
-		fi, err = os.Stat(filepath.Join(f.base, name))
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		fi = mi
-	}
-	return &fileInfo{
-		file: fi,
-		mem:  mi,
-	}, nil
-}
-func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
-	return f.overrides.Lstat(name)
+	return anode.diskInfo(name)
 }
 
-func (f *dirFS) Create(name string) (File, error) {
-	// if the underlying filesystem is case-insensitive, check if the file exists and, if so,
-	// do it only in memory.
-	var (
-		file File
-		err  error
-	)
-	file, err = f.overrides.Create(name)
+// diskInfo describes the node, with what only the disk knows from there.
+func (n *node) diskInfo(name string) (fs.FileInfo, error) {
+	mi := n.fileInfo(name)
+	onDisk := n.diskPath()
+	if onDisk == "" {
+		return mi, nil
+	}
+	fi, err := os.Lstat(onDisk)
 	if err != nil {
 		return nil, err
 	}
-	// do we create it on disk?
-	if f.createOnDisk(name) {
-		// close the memory one
-		_ = file.Close()
-		file, err = os.Create(filepath.Join(f.base, name))
-		if err != nil {
-			return nil, err
-		}
+	return &fileInfo{file: fi, mem: mi}, nil
+}
+
+// diskPath is a place on disk where the node is, or empty if it is in memory only.
+func (n *node) diskPath() string {
+	if len(n.onDisk) == 0 {
+		return ""
 	}
+	return n.onDisk[0]
+}
 
-	return file, err
+func (f *dirFS) Create(name string) (File, error) {
+	return f.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0o666)
 }
 
 func (f *dirFS) Remove(name string) error {
-	if err := f.overrides.Remove(name); err != nil {
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	parent, base, err := f.overrides.findRemovable(name)
+	if err != nil {
 		return err
 	}
-	if f.removeOnDisk(name) {
-		return os.Remove(filepath.Join(f.base, name))
+	anode := parent.children[base]
+	if dir := parent.diskPath(); dir != "" {
+		onDisk := filepath.Join(dir, base)
+		for i, p := range anode.onDisk {
+			if p != onDisk {
+				continue
+			}
+			if len(anode.onDisk) == 1 && anode.linkCount > 0 && anode.mode.IsRegular() {
+				// the other links are in memory only, and so is the content from now on
+				if anode.data, err = os.ReadFile(onDisk); err != nil {
+					return err
+				}
+			}
+			if err := os.Remove(onDisk); err != nil {
+				return err
+			}
+			anode.onDisk = append(anode.onDisk[:i:i], anode.onDisk[i+1:]...)
+			if f.caseMap != nil {
+				delete(f.caseMap, strings.ToLower(onDisk))
+			}
+			break
+		}
 	}
+	parent.remove(base)
 	return nil
 }
 
 func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
-	// get those on disk
-	var (
-		onDisk, inMem []fs.DirEntry
-		err           error
-	)
-	if f.caseSensitiveOnDisk(name) {
-		onDisk, err = os.ReadDir(filepath.Join(f.base, name))
-		if err != nil {
-			return nil, err
-		}
-	}
-	// get those in memory
-	inMem, err = f.overrides.ReadDir(name)
+	f.overrides.mu.RLock()
+	defer f.overrides.mu.RUnlock()
+	anode, err := f.overrides.getNode(name)
 	if err != nil {
 		return nil, err
 	}
-	// possibilities:
-	// - directory on disk is case-insensitive and not the unique one: no entries on disk
-	// - directory on disk is case-insensitive and the unique one: disk entries and memory entries; all disk must be in mem, but mem may have more
-	// - directory on disk is case-sensitive: disk entries and memory entries; all disk must be in mem, but mem may have more
-	//
-	// either way, memory always should be >= disk
-	diskEntries := make(map[string]fs.DirEntry, len(onDisk))
-	for _, d := range onDisk {
-		diskEntries[d.Name()] = d
+	if !anode.dir {
+		return nil, fmt.Errorf("not a directory")
 	}
-
-	dirEntries := make([]fs.DirEntry, 0, len(inMem))
-	for _, m := range inMem {
-		f := m
-		if d, ok := diskEntries[m.Name()]; ok {
-			f = d
-		}
-		dirEntries = append(dirEntries, &dirEntry{disk: f, mem: m})
+	// all on disk are in memory, but memory may have more
+	dirEntries := make([]fs.DirEntry, 0, len(anode.children))
+	for base, child := range anode.children {
+		dirEntries = append(dirEntries, &dirEntry{DirEntry: fs.FileInfoToDirEntry(child.fileInfo(base)), fs: f, node: child})
 	}
 	// we need them in a consistent order
 	sort.Slice(dirEntries, func(i, j int) bool {
 		return dirEntries[i].Name() < dirEntries[j].Name()
 	})
-
 	return dirEntries, nil
 }
+
 func (f *dirFS) ReadFile(name string) ([]byte, error) {
-	if f.caseSensitiveOnDisk(name) {
-		return os.ReadFile(filepath.Join(f.base, name))
+	file, err := f.open(name)
+	if err != nil {
+		return nil, err
 	}
-	return f.overrides.ReadFile(name)
+	defer file.Close()
+	return io.ReadAll(file)
 }
+
 func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
-	var (
-		memContent []byte
-	)
-	if f.createOnDisk(name) {
-		if err := os.WriteFile(filepath.Join(f.base, name), b, mode); err != nil {
-			return err
-		}
-	} else {
-		memContent = b
+	file, err := f.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
+	if err != nil {
+		return err
 	}
-
-	// ensure file exists in memory
-	// if this is just a flag for what is on disk, make it with zero size
-	// if it is the actual file because of case sensitivity, then use the actual content
-	return f.overrides.WriteFile(name, memContent, mode)
+	if _, err := file.Write(b); err != nil {
+		_ = file.Close()
+		return err
+	}
+	return file.Close()
 }
 
 func (f *dirFS) Readnod(name string) (dev int, err error) {
-	if f.caseSensitiveOnDisk(name) {
-		_, err = os.Stat(filepath.Join(f.base, name))
-		if err != nil {
-			return 0, err
-		}
-	}
 	return f.overrides.Readnod(name)
 }
 
 func (f *dirFS) Link(oldname, newname string) error {
-	// for hardlink, we cannot take target as is, as it might be outside of the base.
-	// So we must sanitize it. It should point to a file that is within the filesystem.
-	target := filepath.Join(f.base, oldname)
-	target = filepath.Clean(target)
-	if !strings.HasPrefix(target, f.base) {
-		return fmt.Errorf("hardlink target %s is outside of the filesystem", target)
-	}
-	if f.createOnDisk(newname) {
-		if err := os.Link(target, filepath.Join(f.base, newname)); err != nil {
-			return err
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	target, parent, base, err := f.overrides.newLink(oldname, newname)
+	if err != nil {
+		return err
+	}
+	var onDisk string
+	if targetOnDisk := target.diskPath(); targetOnDisk != "" {
+		onDisk = f.place(parent, base)
+		if onDisk != "" {
+			if err := os.Link(targetOnDisk, onDisk); err != nil {
+				return err
+			}
 		}
 	}
-	return f.overrides.Link(oldname, newname)
+	f.insert(parent, base, target, onDisk)
+	target.linkCount++
+	return nil
 }
 
 func (f *dirFS) Symlink(oldname, newname string) error {
 	// For symlink, take target as is.
 	// If it is outside of the base, it will be resolved by Readlink.
 	// This enables proper symlink behaviour.
-	if f.createOnDisk(newname) {
-		if err := os.Symlink(oldname, filepath.Join(f.base, newname)); err != nil {
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	parent, base, err := f.overrides.newEntry(newname)
+	if err != nil {
+		return err
+	}
+	onDisk := f.place(parent, base)
+	if onDisk != "" {
+		if err := os.Symlink(oldname, onDisk); err != nil {
 			return err
 		}
 	}
-	return f.overrides.Symlink(oldname, newname)
+	f.insert(parent, base, newSymlinkNode(base, oldname), onDisk)
+	return nil
 }
 
 func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
-	// just in case, because some underlying systems miss this
-	fullPerm := os.ModeDir | perm
-	if f.createOnDisk(name) {
-		if err := os.MkdirAll(filepath.Join(f.base, name), fullPerm); err != nil {
-			return err
-		}
-	}
-	return f.overrides.MkdirAll(name, fullPerm)
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	return f.overrides.mkdirAll(name, func(parent *node, base string) error {
+		return f.mkdir(parent, base, perm)
+	})
 }
 
 func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
-	// just in case, because some underlying systems miss this
-	fullPerm := os.ModeDir | perm
-	if f.createOnDisk(name) {
-		if err := os.Mkdir(filepath.Join(f.base, name), fullPerm); err != nil {
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	parent, base, err := f.overrides.newEntry(name)
+	if err != nil {
+		return err
+	}
+	return f.mkdir(parent, base, perm)
+}
+
+func (f *dirFS) mkdir(parent *node, base string, perm fs.FileMode) error {
+	onDisk := f.place(parent, base)
+	if onDisk != "" {
+		// just in case, because some underlying systems miss this
+		fullPerm := os.ModeDir | perm
+		if err := os.Mkdir(onDisk, fullPerm); err != nil {
 			return err
 		}
 	}
-	return f.overrides.Mkdir(name, fullPerm)
+	f.insert(parent, base, newDirNode(base, perm), onDisk)
+	return nil
 }
 
 func (f *dirFS) Chmod(path string, perm fs.FileMode) error {
-	if f.caseSensitiveOnDisk(path) {
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	anode, err := f.overrides.getNode(path)
+	if err != nil {
+		return err
+	}
+	if onDisk := anode.diskPath(); onDisk != "" {
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chmod(filepath.Join(f.base, path), perm)
+		_ = os.Chmod(onDisk, perm)
 	}
-	return f.overrides.Chmod(path, perm)
+	// need to change the mode, but keep the type
+	anode.mode = perm | (anode.mode & os.ModeType)
+	return nil
 }
+
 func (f *dirFS) Chown(path string, uid, gid int) error {
-	if f.caseSensitiveOnDisk(path) {
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	anode, err := f.overrides.getNode(path)
+	if err != nil {
+		return err
+	}
+	if onDisk := anode.diskPath(); onDisk != "" {
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chown(filepath.Join(f.base, path), uid, gid)
+		_ = os.Lchown(onDisk, uid, gid)
 	}
-	return f.overrides.Chown(path, uid, gid)
+	anode.uid = uid
+	anode.gid = gid
+	return nil
 }
 
 func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
-	if f.caseSensitiveOnDisk(name) {
-		err := unix.Mknod(filepath.Join(f.base, name), mode, dev)
+	f.overrides.mu.Lock()
+	defer f.overrides.mu.Unlock()
+	parent, base, err := f.overrides.newEntry(name)
+	if err != nil {
+		return err
+	}
+	onDisk := f.place(parent, base)
+	if onDisk != "" {
 		// what if we could not create it? Just create a regular file there, and memory will override
-		if err != nil {
-			if err := os.WriteFile(filepath.Join(f.base, name), nil, 0); err != nil {
+		if err := unix.Mknod(onDisk, mode, dev); err != nil {
+			if err := os.WriteFile(onDisk, nil, 0); err != nil {
 				return err
 			}
 		}
 	}
-	return f.overrides.Mknod(name, mode, dev)
+	f.insert(parent, base, newDeviceNode(base, mode, dev), onDisk)
+	return nil
 }
 
 func (f *dirFS) SetXattr(path string, attr string, data []byte) error {
@@ -531,84 +577,33 @@ func (f *dirFS) ListXattrs(path string) (map[string][]byte, error) {
 	return f.overrides.ListXattrs(path)
 }
 
-// sanitize ensures that we never go beyond the root of the filesystem
-func (f *dirFS) sanitizePath(p string) (v string, err error) {
-	return sanitizePath(f.base, p)
-}
-func sanitizePath(base, p string) (v string, err error) {
-	v = filepath.Join(base, p)
-	if strings.HasPrefix(filepath.Clean(v), base) {
-		return v, nil
-	}
-
-	return "", fmt.Errorf("%s: %s", "content filepath is tainted", p)
-}
-
-func (f *dirFS) caseSensitiveOnDisk(p string) bool {
-	if f.caseMap == nil {
-		return true
+// place returns where on disk an entry of the directory belongs, or empty if that can only be in
+// memory: if the directory is, or if the disk has a variant of it that differs in case.
+// If something else is there already, that is up to the calling routine to figure out.
+func (f *dirFS) place(parent *node, base string) string {
+	dir := parent.diskPath()
+	if dir == "" {
+		return ""
 	}
-	f.caseMapMutex.Lock()
-	defer f.caseMapMutex.Unlock()
-	p = standardizePath(p)
-	key := strings.ToLower(p)
-	result, ok := f.caseMap[key]
-	if !ok {
-		return true
-	}
-	return result == p
-}
-
-// createOnDisk given a path p, determine if it should be created on disk, and, if relevant,
-// add it to the caseMap. If the file already exists on disk, also returns true.
-// This func is responsible solely for determining if you _should_ created it on disk.
-// If that would cause a conflict, that is up to the calling routing to figure out.
-func (f *dirFS) createOnDisk(p string) bool {
-	if f.caseMap == nil {
-		return true
-	}
-	f.caseMapMutex.Lock()
-	defer f.caseMapMutex.Unlock()
-	p = standardizePath(p)
-	key := strings.ToLower(p)
-	result, ok := f.caseMap[key]
-	if !ok {
-		f.caseMap[key] = p
-		return true
-	}
-	return result == p
-}
-
-// removeOnDisk given a path p, determine if it should be removed from disk, and, if relevant,
-// remove it from the caseMap.
-func (f *dirFS) removeOnDisk(p string) (removeOnDisk bool) {
-	f.caseMapMutex.Lock()
-	defer f.caseMapMutex.Unlock()
-	key := strings.ToLower(p)
-	if f.caseMap == nil {
-		removeOnDisk = true
-	} else if v, ok := f.caseMap[key]; ok && v == p {
-		delete(f.caseMap, key)
-		removeOnDisk = true
+	onDisk := filepath.Join(dir, base)
+	if f.caseMap != nil {
+		if _, ok := f.caseMap[strings.ToLower(onDisk)]; ok {
+			return ""
+		}
 	}
-	return
-}
-
-type file File
-type fileImpl struct {
-	file
-	name  string
-	perms *os.FileMode
+	return onDisk
 }
 
-func (f fileImpl) Close() error {
-	if err := f.file.Close(); err != nil {
-		return err
+// insert the node as an entry of the directory, which is on disk unless onDisk is empty.
+func (f *dirFS) insert(parent *node, base string, n *node, onDisk string) {
+	parent.children[base] = n
+	if onDisk == "" {
+		return
 	}
-	if f.perms != nil {
-		return os.Chmod(f.name, *f.perms)
+	n.onDisk = append(n.onDisk, onDisk)
+	if f.caseMap != nil {
+		f.caseMap[strings.ToLower(onDisk)] = onDisk
 	}
-	return nil
 }
 
 type fileInfo struct {
@@ -617,7 +612,7 @@ type fileInfo struct {
 }
 
 func (f *fileInfo) Name() string {
-	return f.file.Name()
+	return f.mem.Name()
 }
 func (f *fileInfo) Size() int64 {
 	return f.file.Size()
@@ -629,44 +624,20 @@ func (f *fileInfo) ModTime() time.Time {
 	return f.file.ModTime()
 }
 func (f *fileInfo) IsDir() bool {
-	return f.file.IsDir()
+	return f.mem.IsDir()
 }
 func (f *fileInfo) Sys() interface{} {
 	return f.mem.Sys()
 }
 
 type dirEntry struct {
-	disk fs.DirEntry
-	mem  fs.DirEntry
-}
-
-func (d *dirEntry) Name() string {
-	return d.disk.Name()
-}
-
-func (d *dirEntry) IsDir() bool {
-	return d.disk.IsDir()
-}
-
-func (d *dirEntry) Type() fs.FileMode {
-	return d.mem.Type()
+	fs.DirEntry
+	fs   *dirFS
+	node *node
 }
 
 func (d *dirEntry) Info() (fs.FileInfo, error) {
-	diskInfo, err := d.disk.Info()
-	if err != nil {
-		return nil, err
-	}
-	memInfo, err := d.mem.Info()
-	if err != nil {
-		return nil, err
-	}
-	return &fileInfo{file: diskInfo, mem: memInfo}, nil
-}
-
-func standardizePath(p string) string {
-	if p[0] == '/' {
-		p = p[1:]
-	}
-	return p
+	d.fs.overrides.mu.RLock()
+	defer d.fs.overrides.mu.RUnlock()
+	return d.node.diskInfo(d.Name())
 }
-- 
2.43.0


From 758eabd50a9c6e9f1a9e4d294e8c4030c40430be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:57 +0000
Subject: [PATCH 21/40] fix: decide overlaps of installed files by kind and
 content, and record and read back every installed entry

---
 pkg/apk/implementation.go |   2 +-
 pkg/apk/install.go        |  21 ++++--
 pkg/apk/installed.go      | 150 ++++++++++++++++++++++++--------------
 3 files changed, 111 insertions(+), 62 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index e3a8da6..61ec3ca 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -688,7 +688,7 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 
 		// Remove any files that were overwritten by another package.
 		files = slices.DeleteFunc(files, func(hdr tar.Header) bool {
-			owner, ok := a.installedFiles[hdr.Name]
+			owner, ok := a.installedFiles[cleanHeaderName(hdr.Name)]
 			if !ok {
 				// Keep directories, which actually should be duplicated in the idb.
 				return false
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index b1daadd..b686a6d 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -35,7 +35,10 @@ import (
 // writeOneFile writes one file from the APK given the tar header and tar reader.
 func (a *APK) writeOneFile(header *tar.Header, r io.Reader, allowOverwrite bool) error {
 	// check if the file exists; allow override if the origin i
-	if _, err := a.fs.Stat(header.Name); err == nil {
+	if fi, err := a.fs.Lstat(header.Name); err == nil {
+		if !fi.Mode().IsRegular() {
+			return fmt.Errorf("cannot install file %s over existing %s", header.Name, fi.Mode().Type())
+		}
 		if !allowOverwrite {
 			// get the sum of the file, so we can compare it to the new file
 			w := sha1.New() //nolint:gosec // this is what apk tools is using
@@ -93,6 +96,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		if err != nil {
 			return false, fmt.Errorf("error creating temporary file: %w", err)
 		}
+		defer f.Close()
 
 		if _, err := io.Copy(f, tee); err != nil {
 			return false, fmt.Errorf("error copying file %s: %w", header.Name, err)
@@ -112,7 +116,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 	if err := a.writeOneFile(header, r, false); err != nil {
 		// If the error is something other than the file exists, return the error.
 		var fileExistsError FileExistsError
-		if !errors.As(err, &fileExistsError) || pkg.Origin == "" {
+		if !errors.As(err, &fileExistsError) {
 			return false, err
 		}
 
@@ -127,7 +131,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		// 2. The packages are in the same origin.
 
 		// If the existing file's package replaces the package we want to install, we don't need to write this file.
-		pk, ok := a.installedFiles[header.Name]
+		pk, ok := a.installedFiles[cleanHeaderName(header.Name)]
 		if !ok {
 			return false, fmt.Errorf("found existing file we did not install (this should never happen): %s", header.Name)
 		}
@@ -140,7 +144,8 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 
 		// Otherwise, we can only overwrite the file if it's in the same origin or if it replaces the existing package.
 		_, isReplaced := replaceMap[pk.Name]
-		if pk.Origin != pkg.Origin && !isReplaced {
+		sameOrigin := pk.Origin != "" && pk.Origin == pkg.Origin
+		if !sameOrigin && !isReplaced {
 			return false, fmt.Errorf("unable to install file over existing one, different contents: %s", header.Name)
 		}
 
@@ -220,7 +225,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 					}
 				}
 			}
-			if err := a.fs.MkdirAll(header.Name, header.FileInfo().Mode().Perm()); err != nil {
+			if err := a.fs.MkdirAll(header.Name, header.FileInfo().Mode()&^os.ModeType); err != nil {
 				return nil, fmt.Errorf("error creating directory %s: %w", header.Name, err)
 			}
 			// xattrs
@@ -241,7 +246,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 			}
 
 			if installed {
-				a.installedFiles[header.Name] = pkg
+				a.installedFiles[cleanHeaderName(header.Name)] = pkg
 			}
 
 		case tar.TypeSymlink:
@@ -256,7 +261,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 			}
 		case tar.TypeLink:
 			if err := a.fs.Link(header.Linkname, header.Name); err != nil {
-				return nil, err
+				return nil, fmt.Errorf("unable to install link from %s -> %s: %w", header.Name, header.Linkname, err)
 			}
 		default:
 			return nil, fmt.Errorf("unsupported file type %s %v", header.Name, header.Typeflag)
@@ -329,7 +334,7 @@ func (a *APK) lazilyInstallAPKFiles(ctx context.Context, wh WriteHeaderer, tf *t
 		}
 
 		if installed && file.Header.Typeflag == tar.TypeReg {
-			a.installedFiles[file.Header.Name] = pkg
+			a.installedFiles[cleanHeaderName(file.Header.Name)] = pkg
 		}
 
 		files = append(files, file.Header)
diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 141a763..839da1f 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -61,18 +62,21 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 	// package lines
 	pkgLines := PackageToInstalled(pkg)
 	// file lines
-	for _, f := range sortedFiles {
-		perm := f.Mode & 0777
+	for i, f := range sortedFiles {
+		perm := f.Mode & 07777
 		user := f.Uid
 		group := f.Gid
 
 		if f.Typeflag == tar.TypeDir {
-			dirName := strings.TrimSuffix(f.Name, fmt.Sprintf("%c", filepath.Separator))
-			pkgLines = append(pkgLines, fmt.Sprintf("F:%s", dirName))
+			pkgLines = append(pkgLines, fmt.Sprintf("F:%s", cleanHeaderName(f.Name)))
 			if perm != 0o755 || user != 0 || group != 0 {
 				pkgLines = append(pkgLines, fmt.Sprintf("M:%d:%d:%04o", user, group, perm))
 			}
 		} else {
+			if i == 0 {
+				// only files of the root directory are listed before any directory
+				pkgLines = append(pkgLines, "F:")
+			}
 			pkgLines = append(pkgLines, fmt.Sprintf("R:%s", filepath.Base(f.Name)))
 			if perm != 0o644 || user != 0 || group != 0 {
 				pkgLines = append(pkgLines, fmt.Sprintf("a:%d:%d:%04o", user, group, perm))
@@ -238,10 +242,19 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 	packages := []*InstalledPackage{}
 
 	indexScanner := bufio.NewScanner(installed)
+	// There is no limit to the length of a line, e.g. the provides of a package.
+	indexScanner.Buffer(nil, math.MaxInt)
 
 	pkg := &InstalledPackage{}
 	linenr := 1
-	var lastDir, lastFile *tar.Header
+	// The directory files are in, and the indexes into pkg.Files of the entries that
+	// permissions are for. The root directory itself has no entry.
+	const (
+		noEntry   = -1
+		rootEntry = -2
+	)
+	var dirName string
+	lastDir, lastFile := noEntry, noEntry
 
 	for indexScanner.Scan() {
 		line := indexScanner.Text()
@@ -250,12 +263,13 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 				packages = append(packages, pkg)
 			}
 			pkg = &InstalledPackage{}
-			lastDir = nil
-			lastFile = nil
+			dirName = ""
+			lastDir, lastFile = noEntry, noEntry
+			linenr++
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
@@ -280,11 +294,11 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 		case "U":
 			pkg.URL = val
 		case "D":
-			pkg.Dependencies = strings.Split(val, " ")
+			pkg.Dependencies = splitRepeatedField(val)
 		case "p":
-			pkg.Provides = strings.Split(val, " ")
+			pkg.Provides = splitRepeatedField(val)
 		case "r":
-			pkg.Replaces = strings.Split(val, " ")
+			pkg.Replaces = splitRepeatedField(val)
 		case "c":
 			pkg.RepoCommit = val
 		case "t":
@@ -295,7 +309,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			pkg.BuildDate = i
 			pkg.BuildTime = time.Unix(i, 0).UTC()
 		case "i":
-			pkg.InstallIf = strings.Split(val, " ")
+			pkg.InstallIf = splitRepeatedField(val)
 		case "S":
 			size, err := strconv.ParseUint(val, 10, 64)
 			if err != nil {
@@ -324,55 +338,77 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 				pkg.Checksum = checksum
 			}
 		case "F":
-			lastDir = &tar.Header{
-				Name:     val,
-				Mode:     0o755,
-				Uid:      0,
-				Gid:      0,
-				Typeflag: tar.TypeDir,
+			dirName = val
+			lastDir, lastFile = rootEntry, noEntry
+			if val != "" {
+				lastDir = len(pkg.Files)
+				pkg.Files = append(pkg.Files, tar.Header{
+					Name:     val,
+					Mode:     0o755,
+					Uid:      0,
+					Gid:      0,
+					Typeflag: tar.TypeDir,
+				})
 			}
-			pkg.Files = append(pkg.Files, *lastDir)
-			lastFile = nil
 		case "M":
 			// directory perms if not 0o755
-			if lastDir == nil {
+			if lastDir == noEntry {
 				return nil, fmt.Errorf("cannot parse line %d: no directory specified when setting permissions", linenr)
 			}
 			uid, gid, perms, err := parseInstalledPerms(val)
 			if err != nil {
 				return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
 			}
-			lastDir.Uid = uid
-			lastDir.Gid = gid
-			lastDir.Mode = perms
+			if lastDir != rootEntry {
+				pkg.Files[lastDir].Uid = uid
+				pkg.Files[lastDir].Gid = gid
+				pkg.Files[lastDir].Mode = perms
+			}
 		case "R":
 			fullpath := val
-			if lastDir != nil {
-				fullpath, _ = sanitizeArchivePath(lastDir.Name, val)
+			if dirName != "" {
+				var err error
+				fullpath, err = sanitizeArchivePath(dirName, val)
+				if err != nil {
+					return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
+				}
 			}
-			lastFile = &tar.Header{
+			lastFile = len(pkg.Files)
+			pkg.Files = append(pkg.Files, tar.Header{
 				Name: fullpath,
 				Mode: 0o644,
 				Uid:  0,
 				Gid:  0,
-			}
-			pkg.Files = append(pkg.Files, *lastFile)
+			})
 		case "a":
 			// file perms if not 0o644
-			if lastFile == nil {
+			if lastFile == noEntry {
 				return nil, fmt.Errorf("cannot parse line %d: no file specified when setting permissions", linenr)
 			}
 			uid, gid, perms, err := parseInstalledPerms(val)
 			if err != nil {
 				return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
 			}
-			lastFile.Uid = uid
-			lastFile.Gid = gid
-			lastFile.Mode = perms
+			pkg.Files[lastFile].Uid = uid
+			pkg.Files[lastFile].Gid = gid
+			pkg.Files[lastFile].Mode = perms
+		case "Z":
+			if lastFile == noEntry {
+				return nil, fmt.Errorf("cannot parse line %d: no file specified when setting its checksum", linenr)
+			}
+			pkg.Files[lastFile].PAXRecords = map[string]string{paxRecordsChecksumKey: val}
 		}
 
 		linenr++
 	}
+	if err := indexScanner.Err(); err != nil {
+		return nil, fmt.Errorf("reading installed packages: %w", err)
+	}
+
+	// the last entry need not be followed by an empty line
+	if pkg.Name != "" {
+		packages = append(packages, pkg)
+	}
 
 	return packages, nil
 }
@@ -409,39 +445,47 @@ func sortTarHeaders(headers []tar.Header) []tar.Header {
 		// have its own key in the map.)
 		directoryChildren = map[string][]string{}
 
+		// All the directories that have something beneath them, at any depth.
+		nonEmpty = map[string]bool{}
+
 		all = map[string]tar.Header{}
 	)
 
 	for _, header := range headers {
 		// Use a cleaned name for map keys to ensure consistency with lookups later.
-		cleanedName := filepath.Clean(header.Name)
+		cleanedName := cleanHeaderName(header.Name)
+		if cleanedName == "" {
+			// the root directory itself is not recorded
+			continue
+		}
 
-		dir := filepath.Dir(cleanedName)
-		directoryChildren[dir] = append(directoryChildren[dir], cleanedName)
+		if _, ok := all[cleanedName]; !ok {
+			dir := filepath.Dir(cleanedName)
+			directoryChildren[dir] = append(directoryChildren[dir], cleanedName)
+			for ; dir != "."; dir = filepath.Dir(dir) {
+				nonEmpty[dir] = true
+			}
+		}
 		all[cleanedName] = header
 	}
 
-	// Map the directory entries (the keys in "directoryChildren") to a slice (and
-	// sort them for determinism).
-	var dirEntries = make([]string, 0, len(directoryChildren))
-	for dir := range directoryChildren {
-		dirEntries = append(dirEntries, dir)
-	}
-	sort.Strings(dirEntries)
-
-	// We'll start with top-level directories, and then descend into their children
-	// recursively.
-	var topLevelDirs = make([]string, 0, len(dirEntries))
-	for _, dir := range dirEntries {
-		if filepath.Dir(dir) == "." {
-			topLevelDirs = append(topLevelDirs, dir)
+	// We'll start with the entries of the root directory, and then descend into their
+	// children recursively. Directories of which only unreachable descendants are known
+	// are left out.
+	var topLevel = make([]string, 0, len(directoryChildren["."]))
+	for _, child := range directoryChildren["."] {
+		if nonEmpty[child] && len(directoryChildren[child]) == 0 {
+			continue
 		}
+		topLevel = append(topLevel, child)
 	}
 
-	sort.Strings(topLevelDirs)
+	return sortChildrenTarHeaders(directoryChildren, all, topLevel)
+}
 
-	sorted := sortChildrenTarHeaders(directoryChildren, all, topLevelDirs)
-	return sorted
+// cleanHeaderName returns the path of an entry relative to the root, "" for the root itself.
+func cleanHeaderName(name string) string {
+	return strings.TrimPrefix(filepath.Clean("/"+name), "/")
 }
 
 func sortChildrenTarHeaders(directoryChildren map[string][]string, all map[string]tar.Header, children []string) []tar.Header {
-- 
2.43.0


From 0a0497ed43095b57423cc425167856ad1d3aefe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 22/40] fix: read package metadata exactly as written

---
 pkg/apk/implementation.go | 10 +---
 pkg/apk/package.go        | 97 +++++++++++++++++++++++++++++++++++----
 pkg/apk/util.go           |  9 ++--
 3 files changed, 94 insertions(+), 22 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 61ec3ca..258c259 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -36,7 +36,6 @@ import (
 
 	"github.com/chainguard-dev/clog"
 	"github.com/chainguard-dev/go-apk/pkg/expandapk"
-	"gopkg.in/ini.v1"
 
 	"go.lsp.dev/uri"
 	"go.opentelemetry.io/otel"
@@ -1096,14 +1095,9 @@ func packageInfo(exp *expandapk.APKExpanded) (*Package, error) {
 	}
 	defer f.Close()
 
-	cfg, err := ini.ShadowLoad(f)
+	pkg, err := parsePkgInfo(f)
 	if err != nil {
-		return nil, fmt.Errorf("ini.ShadowLoad(): %w", err)
-	}
-
-	pkg := new(Package)
-	if err = cfg.MapTo(pkg); err != nil {
-		return nil, fmt.Errorf("cfg.MapTo(): %w", err)
+		return nil, fmt.Errorf("parsing .PKGINFO in %s: %w", exp.ControlFile, err)
 	}
 	pkg.BuildTime = time.Unix(pkg.BuildDate, 0).UTC()
 	pkg.InstalledSize = pkg.Size
diff --git a/pkg/apk/package.go b/pkg/apk/package.go
index df914de..e2d4766 100644
--- a/pkg/apk/package.go
+++ b/pkg/apk/package.go
@@ -19,11 +19,11 @@ import (
 	"encoding/base64"
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 	"time"
 
 	"github.com/chainguard-dev/go-apk/pkg/expandapk"
-	"gopkg.in/ini.v1"
 )
 
 // PackageToInstalled takes a Package and returns it as the string representation of lines in a /lib/apk/db/installed file.
@@ -42,7 +42,7 @@ func PackageToInstalled(pkg *Package) (out []string) {
 		out = append(out, fmt.Sprintf("r:%s", strings.Join(pkg.Replaces, " ")))
 	}
 	out = append(out, fmt.Sprintf("c:%s", pkg.RepoCommit))
-	out = append(out, fmt.Sprintf("i:%s", pkg.InstallIf))
+	out = append(out, fmt.Sprintf("i:%s", strings.Join(pkg.InstallIf, " ")))
 	out = append(out, fmt.Sprintf("t:%d", pkg.BuildTime.Unix()))
 	out = append(out, fmt.Sprintf("S:%d", pkg.Size))
 	out = append(out, fmt.Sprintf("I:%d", pkg.InstalledSize))
@@ -116,14 +116,9 @@ func ParsePackage(ctx context.Context, apkPackage io.Reader) (*Package, error) {
 		return nil, fmt.Errorf("expanded.ControlData(): %v", err)
 	}
 
-	cfg, err := ini.ShadowLoad(r)
+	pkg, err := parsePkgInfo(r)
 	if err != nil {
-		return nil, fmt.Errorf("ini.ShadowLoad(): %w", err)
-	}
-
-	pkg := new(Package)
-	if err = cfg.MapTo(pkg); err != nil {
-		return nil, fmt.Errorf("cfg.MapTo(): %w", err)
+		return nil, fmt.Errorf("parsing .PKGINFO: %w", err)
 	}
 	pkg.BuildTime = time.Unix(pkg.BuildDate, 0).UTC()
 	pkg.InstalledSize = pkg.Size
@@ -132,3 +127,87 @@ func ParsePackage(ctx context.Context, apkPackage io.Reader) (*Package, error) {
 
 	return pkg, nil
 }
+
+// parsePkgInfo reads a .PKGINFO file: lines of the form "key = value", where a value is everything
+// up to the end of the line, and comment lines starting with '#'. Keys of lists appear once for
+// each element; of other keys given several times the first counts.
+func parsePkgInfo(r io.Reader) (*Package, error) {
+	b, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+
+	pkg := new(Package)
+	seen := map[string]struct{}{}
+
+	for i, line := range strings.Split(string(b), "\n") {
+		line = strings.TrimSpace(line)
+		if line == "" || strings.HasPrefix(line, "#") {
+			continue
+		}
+
+		key, value, ok := strings.Cut(line, "=")
+		if !ok {
+			return nil, fmt.Errorf("line %d: no \"=\" in %q", i+1, line)
+		}
+		key, value = strings.TrimSpace(key), strings.TrimSpace(value)
+		if value == "" {
+			continue
+		}
+
+		switch key {
+		case "depend":
+			pkg.Dependencies = append(pkg.Dependencies, value)
+			continue
+		case "provides":
+			pkg.Provides = append(pkg.Provides, value)
+			continue
+		case "replaces":
+			pkg.Replaces = append(pkg.Replaces, value)
+			continue
+		case "install_if":
+			pkg.InstallIf = append(pkg.InstallIf, strings.Fields(value)...)
+			continue
+		}
+
+		if _, ok := seen[key]; ok {
+			continue
+		}
+		seen[key] = struct{}{}
+
+		var err error
+		switch key {
+		case "pkgname":
+			pkg.Name = value
+		case "pkgver":
+			pkg.Version = value
+		case "arch":
+			pkg.Arch = value
+		case "pkgdesc":
+			pkg.Description = value
+		case "license":
+			pkg.License = value
+		case "origin":
+			pkg.Origin = value
+		case "maintainer":
+			pkg.Maintainer = value
+		case "url":
+			pkg.URL = value
+		case "commit":
+			pkg.RepoCommit = value
+		case "datahash":
+			pkg.DataHash = value
+		case "size":
+			pkg.Size, err = strconv.ParseUint(value, 10, 64)
+		case "provider_priority":
+			pkg.ProviderPriority, err = strconv.ParseUint(value, 10, 64)
+		case "builddate":
+			pkg.BuildDate, err = strconv.ParseInt(value, 10, 64)
+		}
+		if err != nil {
+			return nil, fmt.Errorf("line %d: %w", i+1, err)
+		}
+	}
+
+	return pkg, nil
+}
diff --git a/pkg/apk/util.go b/pkg/apk/util.go
index 72e04b2..d68f308 100644
--- a/pkg/apk/util.go
+++ b/pkg/apk/util.go
@@ -62,11 +62,11 @@ func controlValue(controlTar io.Reader, want ...string) (map[string][]string, er
 		}
 		lines := strings.Split(string(b), "\n")
 		for _, line := range lines {
-			parts := strings.Split(line, "=")
-			if len(parts) != 2 {
+			key, value, ok := strings.Cut(line, "=")
+			if !ok {
 				continue
 			}
-			key := strings.TrimSpace(parts[0])
+			key = strings.TrimSpace(key)
 			if !slices.Contains(want, key) {
 				continue
 			}
@@ -76,8 +76,7 @@ func controlValue(controlTar io.Reader, want ...string) (map[string][]string, er
 				values = []string{}
 			}
 
-			value := strings.TrimSpace(parts[1])
-			values = append(values, value)
+			values = append(values, strings.TrimSpace(value))
 
 			mapping[key] = values
 		}
-- 
2.43.0


From 79a15e3d61240db8d39144f11d3c5a28a0c230bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 23/40] fix: record install scripts under names of any length

---
 pkg/apk/installed.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 839da1f..bdae3dd 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -143,7 +143,6 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 	}
 
 	tw := tar.NewWriter(scripts)
-	defer tw.Close()
 	for {
 		header, err := tr.Next()
 		if errors.Is(err, io.EOF) {
@@ -160,6 +159,8 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 
 		origName := header.Name
 		header.Name = fmt.Sprintf("%s-%s.Q1%s%s", pkg.Name, pkg.Version, base64.StdEncoding.EncodeToString(pkg.Checksum), origName)
+		// the new name may be too long for the format the original one was in
+		header.Format = tar.FormatUnknown
 
 		// zero out timestamps for reproducibility
 		if sourceDateEpoch != nil {
@@ -178,6 +179,9 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 			return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
 		}
 	}
+	if err := tw.Close(); err != nil {
+		return fmt.Errorf("unable to finish scripts file %s: %w", scriptsFilePath, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 17c1c44188e9c41ea4b5cd6f74bc227f420a7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:28 +0000
Subject: [PATCH 24/40] fix: install only packages with the checksums they are
 known by

---
 pkg/apk/implementation.go | 44 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 258c259..6f3f9b0 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -927,15 +927,16 @@ type apkResult struct {
 }
 
 type apkCache struct {
-	// url -> *sync.Once
+	// url and checksum -> *sync.Once
 	onces sync.Map
 
-	// url -> apkResult
+	// url and checksum -> apkResult
 	resps sync.Map
 }
 
 func (c *apkCache) get(ctx context.Context, a *APK, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
-	u := pkg.URL()
+	// What is acceptable at the URL depends on the checksum.
+	u := pkg.URL() + "#" + pkg.ChecksumString()
 	// Do all the expensive things inside the once.
 	once, _ := c.onces.LoadOrStore(u, &sync.Once{})
 	once.(*sync.Once).Do(func() {
@@ -1004,6 +1005,11 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 		return nil, fmt.Errorf("expanding %s: %w", pkg.PackageName(), err)
 	}
 
+	if err := a.verifyExpanded(pkg, exp); err != nil {
+		exp.Close()
+		return nil, fmt.Errorf("verifying %s: %w", pkg.PackageName(), err)
+	}
+
 	// If we don't have a cache, we're done.
 	if a.cache == nil {
 		return exp, nil
@@ -1012,6 +1018,38 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 	return a.cachePackage(ctx, pkg, exp, cacheDir)
 }
 
+// verifyExpanded checks that exp is the package that pkg stands for: its control section must have
+// the checksum given by pkg, and its data section the hash given by the control section, if any.
+func (a *APK) verifyExpanded(pkg InstallablePackage, exp *expandapk.APKExpanded) error {
+	chk := pkg.ChecksumString()
+	checksum, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(chk, "Q1"))
+	if err != nil {
+		return fmt.Errorf("decoding checksum %q: %w", chk, err)
+	}
+	if !bytes.Equal(checksum, exp.ControlHash) {
+		return fmt.Errorf("checksum of the control section is Q1%s, expected %s", base64.StdEncoding.EncodeToString(exp.ControlHash), chk)
+	}
+
+	f, err := os.Open(exp.ControlFile)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+
+	datahashes, err := a.controlValue(f, "datahash")
+	if err != nil {
+		return fmt.Errorf("reading datahash from control: %w", err)
+	}
+	got := hex.EncodeToString(exp.PackageHash)
+	for _, datahash := range datahashes {
+		if datahash != "" && datahash != got {
+			return fmt.Errorf("hash of the data section is %s, expected %s", got, datahash)
+		}
+	}
+
+	return nil
+}
+
 func packageAsURI(pkg InstallablePackage) (uri.URI, error) {
 	u := pkg.URL()
 
-- 
2.43.0


From a81cfee39db8dfcfb5d88131a0bd50f709e55408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:53 +0000
Subject: [PATCH 25/40] fix: do not keep failed fetches of packages and
 indexes, and report an unreadable local index

---
 pkg/apk/flight.go         | 78 +++++++++++++++++++++++++++++++++++++++
 pkg/apk/implementation.go | 33 +++--------------
 pkg/apk/index.go          | 77 ++++++++++++++++++--------------------
 3 files changed, 118 insertions(+), 70 deletions(-)
 create mode 100644 pkg/apk/flight.go

diff --git a/pkg/apk/flight.go b/pkg/apk/flight.go
new file mode 100644
index 0000000..6a7d7e5
--- /dev/null
+++ b/pkg/apk/flight.go
@@ -0,0 +1,78 @@
+// Copyright 2024 Chainguard, Inc.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package apk
+
+import (
+	"context"
+	"errors"
+	"sync"
+)
+
+// flight is one attempt at getting a value, val and err are set when done is closed.
+type flight[T any] struct {
+	done chan struct{}
+	val  T
+	err  error
+}
+
+// flightCache gets each value once and keeps it. Failures are only reported to those who wait for
+// the attempt that failed, the next one to ask tries again.
+type flightCache[T any] struct {
+	mu      sync.Mutex
+	flights map[string]*flight[T]
+}
+
+func (c *flightCache[T]) get(ctx context.Context, key string, fn func() (T, error)) (T, error) {
+	for {
+		c.mu.Lock()
+		f, ok := c.flights[key]
+		if !ok {
+			f = &flight[T]{done: make(chan struct{}), err: errors.New("attempt did not finish")}
+			if c.flights == nil {
+				c.flights = map[string]*flight[T]{}
+			}
+			c.flights[key] = f
+			c.mu.Unlock()
+			c.run(key, f, fn)
+			return f.val, f.err
+		}
+		c.mu.Unlock()
+
+		select {
+		case <-f.done:
+		case <-ctx.Done():
+			var zero T
+			return zero, ctx.Err()
+		}
+
+		// That somebody else gave up is no reason for us to.
+		if f.err != nil && ctx.Err() == nil && (errors.Is(f.err, context.Canceled) || errors.Is(f.err, context.DeadlineExceeded)) {
+			continue
+		}
+		return f.val, f.err
+	}
+}
+
+func (c *flightCache[T]) run(key string, f *flight[T], fn func() (T, error)) {
+	defer func() {
+		if f.err != nil {
+			c.mu.Lock()
+			delete(c.flights, key)
+			c.mu.Unlock()
+		}
+		close(f.done)
+	}()
+	f.val, f.err = fn()
+}
diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 6f3f9b0..7e012fe 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -31,7 +31,6 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
-	"sync"
 	"time"
 
 	"github.com/chainguard-dev/clog"
@@ -921,39 +920,17 @@ func (a *APK) cachedPackage(ctx context.Context, pkg InstallablePackage, cacheDi
 	return &exp, nil
 }
 
-type apkResult struct {
-	exp *expandapk.APKExpanded
-	err error
-}
-
+// apkCache keeps the packages that are in a cache directory by directory, url and checksum.
 type apkCache struct {
-	// url and checksum -> *sync.Once
-	onces sync.Map
-
-	// url and checksum -> apkResult
-	resps sync.Map
+	flights flightCache[*expandapk.APKExpanded]
 }
 
 func (c *apkCache) get(ctx context.Context, a *APK, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
 	// What is acceptable at the URL depends on the checksum.
-	u := pkg.URL() + "#" + pkg.ChecksumString()
-	// Do all the expensive things inside the once.
-	once, _ := c.onces.LoadOrStore(u, &sync.Once{})
-	once.(*sync.Once).Do(func() {
-		exp, err := expandPackage(ctx, a, pkg)
-		c.resps.Store(u, apkResult{
-			exp: exp,
-			err: err,
-		})
+	key := fmt.Sprintf("%q %q %q", a.cache.dir, pkg.URL(), pkg.ChecksumString())
+	return c.flights.get(ctx, key, func() (*expandapk.APKExpanded, error) {
+		return expandPackage(ctx, a, pkg)
 	})
-
-	v, ok := c.resps.Load(u)
-	if !ok {
-		panic(fmt.Errorf("did not see apk %q after writing it", u))
-	}
-
-	result := v.(apkResult)
-	return result.exp, result.err
 }
 
 func (a *APK) expandPackage(ctx context.Context, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 9cb22c3..b2cf985 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -44,25 +44,21 @@ var signatureFileRegex = regexp.MustCompile(`^\.SIGN\.RSA\.(.*\.rsa\.pub)$`)
 // This is terrible but simpler than plumbing around a cache for now.
 // We just hold the parsed index in memory rather than re-parsing it every time,
 // which requires gunzipping, which is (somewhat) expensive.
-var globalIndexCache = &indexCache{
-	modtimes: map[string]time.Time{},
-}
+var globalIndexCache = &indexCache{}
 
-type indexResult struct {
-	idx *APKIndex
-	err error
+// localIndex is an index read from a file that had the given modification time.
+type localIndex struct {
+	idx     *APKIndex
+	modtime time.Time
 }
 
 type indexCache struct {
 	// For remote indexes.
-	onces sync.Map
+	remotes flightCache[*APKIndex]
 
 	// For local indexes.
 	sync.Mutex
-	modtimes map[string]time.Time
-
-	// cache key -> indexResult
-	indexes sync.Map
+	locals map[string]localIndex
 }
 
 // key identifies the results of loading u. Whether an index is accepted depends on the keys it
@@ -87,45 +83,42 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 	key := i.key(u, keys, arch, opts)
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
 		// We don't want remote indexes to change while we're running.
-		once, _ := i.onces.LoadOrStore(key, &sync.Once{})
-		once.(*sync.Once).Do(func() {
-			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(key, indexResult{
-				idx: idx,
-				err: err,
-			})
+		return i.remotes.get(ctx, key, func() (*APKIndex, error) {
+			return getRepositoryIndex(ctx, u, keys, arch, opts)
 		})
-	} else {
-		i.Lock()
-		defer i.Unlock()
+	}
+
+	i.Lock()
+	defer i.Unlock()
+
+	// We do expect local indexes to change, so we check modtimes.
+	stat, err := os.Stat(u)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil, nil
+	}
+	if err != nil {
+		return nil, err
+	}
 
-		// We do expect local indexes to change, so we check modtimes.
-		stat, err := os.Stat(u)
+	mod := stat.ModTime()
+	local, ok := i.locals[key]
+	if !ok || mod.After(local.modtime) {
+		// If this is the first time or it has changed since the last time...
+		idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
 		if err != nil {
+			return nil, err
+		}
+		if idx == nil {
 			return nil, nil
 		}
-
-		mod := stat.ModTime()
-		before, ok := i.modtimes[key]
-		if !ok || mod.After(before) {
-			// If this is the first time or it has changed since the last time...
-			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(key, indexResult{
-				idx: idx,
-				err: err,
-			})
-			i.modtimes[key] = mod
+		local = localIndex{idx: idx, modtime: mod}
+		if i.locals == nil {
+			i.locals = map[string]localIndex{}
 		}
+		i.locals[key] = local
 	}
 
-	v, ok := i.indexes.Load(key)
-	if !ok {
-		asURL, _ := url.Parse(u)
-		panic(fmt.Errorf("did not see index %q after writing it", asURL.Redacted()))
-	}
-	result := v.(indexResult)
-
-	return result.idx, result.err
+	return local.idx, nil
 }
 
 // IndexURL full URL to the index file for the given repo and arch
-- 
2.43.0


From 0706b2b83c75948d818c2b36b244bb6058184993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 26/40] fix: keep cached responses apart by URL and entity tag,
 and serve only finished entries

---
 pkg/apk/cache.go          | 244 ++++++++++++++++++--------------------
 pkg/apk/implementation.go |   3 +
 2 files changed, 118 insertions(+), 129 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 54e7883..8c29a97 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -15,6 +15,7 @@
 package apk
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"io"
 	"net/http"
@@ -22,7 +23,6 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
-	"sync"
 )
 
 // This is terrible but simpler than plumbing around a cache for now.
@@ -30,98 +30,78 @@ import (
 // Doing this cuts down on the number of requests we send for index and keys.
 var globalEtagCache = &etagCache{}
 
-type etagResp struct {
-	resp      *http.Response
-	err       error
-	cacheFile string
-}
-
+// etagCache remembers by url and place in the cache which file holds the response, or "" if the response
+// cannot be cached.
 type etagCache struct {
-	// url -> *sync.Once
-	etags sync.Map
-
-	// url -> etagResp
-	resps sync.Map
+	flights flightCache[string]
 }
 
-// get dedupes incoming etag-based requests by url (using a sync.Map[string]sync.Once) and stores the results
-// in a sync.Map[string]etagResp. If we request the same URL multiple times, we will only ever reach out to
-// the internet for the first once and reuse the results for all subsequent calls (unless the response does
-// not have an etag).
+// get dedupes incoming etag-based requests by url. If we request the same URL multiple times, we will only
+// ever reach out to the internet for the first one and reuse the results for all subsequent calls (unless
+// the response does not have an etag).
 func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile string) (*http.Response, error) {
-	url := request.URL.String()
-
-	// Do all the expensive things inside the once.
-	once, _ := e.etags.LoadOrStore(url, &sync.Once{})
-	once.(*sync.Once).Do(func() {
-		req := request.Clone(request.Context())
-		req.Method = http.MethodHead
-		resp, rerr := t.wrapped.Do(req)
-		if resp != nil {
-			// We don't expect any body from a HEAD so just always close it to appease the linter.
-			resp.Body.Close()
-		}
-		if rerr != nil || resp.StatusCode != 200 {
-			e.resps.Store(url, etagResp{
-				resp: resp,
-				err:  rerr,
-			})
-			return
-		}
-
-		initialEtag, ok := etagFromResponse(resp)
-		if !ok {
-			return
-		}
+	// Do all the expensive things once.
+	key := fmt.Sprintf("%q %q", cacheFile, request.URL.String())
+	etagFile, err := e.flights.get(request.Context(), key, func() (string, error) {
+		return t.fill(request, cacheFile)
+	})
+	if err != nil {
+		return nil, err
+	}
+	if etagFile == "" {
+		// If the server doesn't return etags, and we require them,
+		// then do not cache.
+		return t.wrapped.Do(request)
+	}
 
-		// We simulate content-based addressing with the etag values using an .etag
-		// file extension.
-		etagFile := cacheFileFromEtag(cacheFile, initialEtag)
-		if _, err := os.Stat(etagFile); err == nil {
-			e.resps.Store(url, etagResp{
-				cacheFile: etagFile,
-			})
-			return
-		}
+	return fileResponse(etagFile)
+}
 
-		// Only download the index once.
-		etagFile, err := t.retrieveAndSaveFile(request, func(r *http.Response) (string, error) {
-			// On the etag path, use the etag from the actual response to
-			// compute the final file name.
-			finalEtag, ok := etagFromResponse(r)
-			if !ok {
-				return "", fmt.Errorf("GET response did not contain an etag, but HEAD returned %q", initialEtag)
-			}
+// fill makes sure that the current response is in the cache, and returns the file it is in.
+// If the response cannot be cached, the file is "".
+func (t *cacheTransport) fill(request *http.Request, cacheFile string) (string, error) {
+	if t.wrapped == nil {
+		return "", fmt.Errorf("wrapped client is nil")
+	}
 
-			return cacheFileFromEtag(cacheFile, finalEtag), nil
-		})
-		e.resps.Store(url, etagResp{
-			err:       err,
-			cacheFile: etagFile,
-		})
-	})
+	req := request.Clone(request.Context())
+	req.Method = http.MethodHead
+	resp, err := t.wrapped.Do(req)
+	if err != nil {
+		return "", err
+	}
+	// We don't expect any body from a HEAD so just always close it to appease the linter.
+	resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return "", nil
+	}
 
-	v, ok := e.resps.Load(url)
+	initialEtag, ok := etagFromResponse(resp)
 	if !ok {
-		// If the server doesn't return etags, and we require them,
-		// then do not cache.
-		return t.wrapped.Do(request)
+		return "", nil
 	}
-	resp := v.(etagResp)
 
-	// If we didn't manage to cache it, return the response and/or error.
-	if resp.cacheFile == "" {
-		return resp.resp, resp.err
+	// We simulate content-based addressing with the etag values using an .etag
+	// file extension.
+	etagFile := cacheFileFromEtag(cacheFile, initialEtag)
+	if _, err := os.Stat(etagFile); err == nil {
+		return etagFile, nil
 	}
 
-	f, err := os.Open(resp.cacheFile)
+	return t.retrieveAndSaveFile(request, cacheFile)
+}
+
+// fileResponse is the response that was saved in the given file.
+func fileResponse(name string) (*http.Response, error) {
+	f, err := os.Open(name)
 	if err != nil {
-		return nil, fmt.Errorf("open(%q): %w", resp.cacheFile, err)
+		return nil, fmt.Errorf("open(%q): %w", name, err)
 	}
 
 	fi, err := f.Stat()
 	if err != nil {
-		return nil, fmt.Errorf("stat(%q): %w", resp.cacheFile, err)
+		f.Close()
+		return nil, fmt.Errorf("stat(%q): %w", name, err)
 	}
 
 	return &http.Response{
@@ -187,66 +167,63 @@ func (t *cacheTransport) RoundTrip(request *http.Request) (*http.Response, error
 	}
 
 	if t.offline {
-		cacheDir := cacheDirFromFile(cacheFile)
+		cacheDir, ext := cacheEntries(cacheFile)
 		des, err := os.ReadDir(cacheDir)
 		if err != nil {
 			return nil, fmt.Errorf("listing %q for offline cache: %w", cacheDir, err)
 		}
 
-		if len(des) == 0 {
-			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)
-		}
-
-		newest, err := des[0].Info()
-		if err != nil {
-			return nil, err
-		}
+		var newest os.FileInfo
+		for _, de := range des {
+			// Anything else is not an entry, e.g. a download that was never finished.
+			if !de.Type().IsRegular() || !strings.HasSuffix(de.Name(), ext) {
+				continue
+			}
 
-		for _, de := range des[1:] {
 			fi, err := de.Info()
 			if err != nil {
 				return nil, err
 			}
 
-			if fi.ModTime().After(newest.ModTime()) {
+			if newest == nil || fi.ModTime().After(newest.ModTime()) {
 				newest = fi
 			}
 		}
 
-		f, err := os.Open(filepath.Join(cacheDir, newest.Name()))
-		if err != nil {
-			return nil, err
+		if newest == nil {
+			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)
 		}
 
-		return &http.Response{
-			StatusCode:    http.StatusOK,
-			Body:          f,
-			ContentLength: newest.Size(),
-		}, nil
+		return fileResponse(filepath.Join(cacheDir, newest.Name()))
 	}
 
 	return globalEtagCache.get(t, request, cacheFile)
 }
 
-func cacheDirFromFile(cacheFile string) string {
-	if strings.HasSuffix(cacheFile, "APKINDEX.tar.gz") {
-		return filepath.Join(filepath.Dir(cacheFile), "APKINDEX")
+// cacheEntries returns the directory that holds what was ever the response for the URL of cacheFile, and
+// the extension of the files there.
+func cacheEntries(cacheFile string) (string, string) {
+	// Keep all the index files under APKINDEX/ with appropriate file extension.
+	if filepath.Base(cacheFile) == indexFilename {
+		return filepath.Join(filepath.Dir(cacheFile), "APKINDEX"), ".tar.gz"
 	}
 
-	return filepath.Dir(cacheFile)
+	return cacheFile, ".etag"
 }
 
+// maxEtagName leaves room for an extension in the name of a file.
+const maxEtagName = 200
+
 func cacheFileFromEtag(cacheFile, etag string) string {
-	cacheDir := filepath.Dir(cacheFile)
-	ext := ".etag"
+	cacheDir, ext := cacheEntries(cacheFile)
 
-	// Keep all the index files under APKINDEX/ with appropriate file extension.
-	if strings.HasSuffix(cacheFile, "APKINDEX.tar.gz") {
-		cacheDir = filepath.Join(cacheDir, "APKINDEX")
-		ext = ".tar.gz"
+	// An etag can be any text, including path separators.
+	name := url.QueryEscape(etag)
+	if len(name) > maxEtagName {
+		name = fmt.Sprintf("sha256:%x", sha256.Sum256([]byte(etag)))
 	}
 
-	return filepath.Join(cacheDir, etag+ext)
+	return filepath.Join(cacheDir, name+ext)
 }
 
 func etagFromResponse(resp *http.Response) (string, bool) {
@@ -259,23 +236,26 @@ func etagFromResponse(resp *http.Response) (string, bool) {
 	return etag, etag != ""
 }
 
-type cachePlacer func(*http.Response) (string, error)
-
-func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlacer) (string, error) {
-	if t.wrapped == nil {
-		return "", fmt.Errorf("wrapped client is nil")
-	}
+// retrieveAndSaveFile saves the response in the cache and returns the file it is in. If the response
+// cannot be cached, the file is "".
+func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cacheFile string) (_ string, rerr error) {
 	resp, err := t.wrapped.Do(request)
-	if err != nil || resp.StatusCode != 200 {
+	if err != nil {
 		return "", err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return "", nil
+	}
 
-	// Determine the file we will caching stuff in based on the URL/response
-	cacheFile, err := cp(resp)
-	if err != nil {
-		return "", err
+	// Use the etag from the actual response to compute the final file name.
+	etag, ok := etagFromResponse(resp)
+	if !ok {
+		return "", nil
 	}
-	cacheDir := filepath.Dir(cacheFile)
+	etagFile := cacheFileFromEtag(cacheFile, etag)
+
+	cacheDir := filepath.Dir(etagFile)
 	if err := os.MkdirAll(cacheDir, 0755); err != nil {
 		return "", fmt.Errorf("unable to create cache directory: %w", err)
 	}
@@ -286,24 +266,26 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 	if err != nil {
 		return "", fmt.Errorf("unable to create a temporary cache file: %w", err)
 	}
-	if err := func() error {
-		defer tmp.Close()
-		defer resp.Body.Close()
-		if _, err := io.Copy(tmp, resp.Body); err != nil {
-			return fmt.Errorf("unable to write to cache file: %w", err)
+	defer func() {
+		if rerr != nil {
+			os.Remove(tmp.Name())
 		}
-		return nil
-	}(); err != nil {
-		return "", err
+	}()
+	if _, err := io.Copy(tmp, resp.Body); err != nil {
+		tmp.Close()
+		return "", fmt.Errorf("unable to write to cache file: %w", err)
+	}
+	if err := tmp.Close(); err != nil {
+		return "", fmt.Errorf("unable to write to cache file: %w", err)
 	}
 
 	// Now that we have the file has been written, rename to atomically populate
 	// the cache
-	if err := os.Rename(tmp.Name(), cacheFile); err != nil {
-		return "", fmt.Errorf("unable to populate cache: %v", err)
+	if err := os.Rename(tmp.Name(), etagFile); err != nil {
+		return "", fmt.Errorf("unable to populate cache: %w", err)
 	}
 
-	return cacheFile, nil
+	return etagFile, nil
 }
 
 func cacheDirForPackage(root string, pkg InstallablePackage) (string, error) {
@@ -332,6 +314,10 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 	u2.ForceQuery = false
 	u2.RawFragment = ""
 	u2.RawQuery = ""
+	if u2.User != nil {
+		// passwords do not belong into file names
+		u2.User = url.User(u2.User.Username())
+	}
 	filename := filepath.Base(u2.Path)
 	archDir := filepath.Dir(u2.Path)
 	dir := filepath.Base(archDir)
@@ -345,7 +331,7 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 	// validate it is within root
 	cacheFile = filepath.Clean(cacheFile)
 	cleanroot := filepath.Clean(root)
-	if !strings.HasPrefix(cacheFile, cleanroot) {
+	if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil || !filepath.IsLocal(rel) {
 		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)
 	}
 	return cacheFile, nil
diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 7e012fe..19b4520 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -719,6 +719,9 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 
 	u := alpineReleasesURL
 	client := a.client
+	if a.cache != nil {
+		client = a.cache.client(client, true)
+	}
 	req, err := http.NewRequestWithContext(ctx, http.MethodGet, u, nil)
 	if err != nil {
 		return err
-- 
2.43.0


From c85f0c14005b4007e8940ea295412a459effb0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:46 +0000
Subject: [PATCH 27/40] fix: keep passwords out of errors and index sources,
 and send configured credentials the same way everywhere

---
 pkg/apk/implementation.go | 21 +++++++++++++--------
 pkg/apk/index.go          |  8 ++++----
 pkg/apk/repo.go           |  2 +-
 pkg/apk/transport.go      |  6 +++---
 pkg/apk/util.go           | 19 +++++++++++++++++++
 5 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 19b4520..f4c662c 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -390,7 +390,7 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 				asURL, err = url.Parse(string(uri.New(element)))
 			}
 			if err != nil {
-				return fmt.Errorf("failed to parse key as URI: %w", err)
+				return fmt.Errorf("failed to parse key as URI: %w", withoutURL(err))
 			}
 
 			var data []byte
@@ -416,7 +416,7 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 					pass, _ := asURL.User.Password()
 					req.SetBasicAuth(user, pass)
 					req.URL.User = nil
-				} else if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {
+				} else if a, ok := a.auth[asURL.Host]; ok && (a.user != "" || a.pass != "") {
 					req.SetBasicAuth(a.user, a.pass)
 				}
 
@@ -1043,10 +1043,15 @@ func packageAsURI(pkg InstallablePackage) (uri.URI, error) {
 func packageAsURL(pkg InstallablePackage) (*url.URL, error) {
 	asURI, err := packageAsURI(pkg)
 	if err != nil {
-		return nil, err
+		return nil, withoutURL(err)
+	}
+
+	asURL, err := url.Parse(string(asURI))
+	if err != nil {
+		return nil, withoutURL(err)
 	}
 
-	return url.Parse(string(asURI))
+	return asURL, nil
 }
 
 func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.ReadCloser, error) {
@@ -1082,7 +1087,7 @@ func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.Read
 		if err != nil {
 			return nil, err
 		}
-		if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {
+		if a, ok := a.auth[asURL.Host]; ok && (a.user != "" || a.pass != "") {
 			req.SetBasicAuth(a.user, a.pass)
 		}
 
@@ -1090,11 +1095,11 @@ func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.Read
 		rrt := newRangeRetryTransport(ctx, client)
 		res, err := rrt.RoundTrip(req)
 		if err != nil {
-			return nil, fmt.Errorf("unable to get package apk at %s: %w", u, err)
+			return nil, fmt.Errorf("unable to get package apk at %s: %w", asURL.Redacted(), err)
 		}
 		if res.StatusCode != http.StatusOK {
 			res.Body.Close()
-			return nil, fmt.Errorf("unable to get package apk at %s: %v", u, res.Status)
+			return nil, fmt.Errorf("unable to get package apk at %s: %v", asURL.Redacted(), res.Status)
 		}
 		return res.Body, nil
 	default:
@@ -1196,7 +1201,7 @@ func (a *APK) datahash(controlTarGz io.Reader) (string, error) {
 func packageRefs(pkgs []*RepositoryPackage) []string {
 	names := make([]string, len(pkgs))
 	for i, pkg := range pkgs {
-		names[i] = fmt.Sprintf("%s (%s) %s", pkg.Name, pkg.Version, pkg.URL())
+		names[i] = fmt.Sprintf("%s (%s) %s", pkg.Name, pkg.Version, redactURL(pkg.URL()))
 	}
 	return names
 }
diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index b2cf985..3e0c5db 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -139,7 +139,7 @@ func GetRepositoryIndexes(ctx context.Context, repos []string, keys map[string][
 		opt(opts)
 	}
 
-	for _, repo := range repos {
+	for i, repo := range repos {
 		// does it start with a pin?
 		var (
 			repoName string
@@ -149,7 +149,7 @@ func GetRepositoryIndexes(ctx context.Context, repos []string, keys map[string][
 			// it's a pinned repository, get the name
 			parts := strings.Fields(repo)
 			if len(parts) < 2 {
-				return nil, fmt.Errorf("invalid repository line: %q", repo)
+				return nil, fmt.Errorf("invalid repository line %d: no repository after the tag", i+1)
 			}
 			repoName = parts[0][1:]
 			repoURL = parts[1]
@@ -204,7 +204,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		asURL, err = url.Parse(string(uri.New(u)))
 	}
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse repo as URI: %w", err)
+		return nil, fmt.Errorf("failed to parse repo as URI: %w", withoutURL(err))
 	}
 
 	switch asURL.Scheme {
@@ -227,7 +227,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 			user := asURL.User.Username()
 			pass, _ := asURL.User.Password()
 			req.SetBasicAuth(user, pass)
-		} else if a, ok := opts.auth[asURL.Host]; ok && a.user != "" || a.pass != "" {
+		} else if a, ok := opts.auth[asURL.Host]; ok && (a.user != "" || a.pass != "") {
 			req.SetBasicAuth(a.user, a.pass)
 		}
 
diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index abbe012..fcd5a98 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -81,7 +81,7 @@ func (n *namedRepositoryWithIndex) Source() string {
 		return ""
 	}
 
-	return n.repo.IndexURI()
+	return redactURL(n.repo.IndexURI())
 }
 
 // repositoryPackage is a package that is part of a repository.
diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index e432e23..b25471c 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -92,15 +92,15 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		}
 	} else if resp.StatusCode != http.StatusPartialContent {
 		if oerr != nil {
-			return resp, fmt.Errorf("retrying %w: %s %s (Range: %s): unexpected status code: %d", oerr, req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+			return resp, fmt.Errorf("retrying %w: %s %s (Range: %s): unexpected status code: %d", oerr, req.Method, req.URL.Redacted(), rangeHeader, resp.StatusCode)
 		}
 
-		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.Redacted(), rangeHeader, resp.StatusCode)
 	} else if cr := resp.Header.Get("Content-Range"); cr != "" {
 		// Make sure that what we got starts where we left off.
 		var start, end, total int64
 		if n, _ := fmt.Sscanf(cr, "bytes %d-%d/%d", &start, &end, &total); n < 2 || start != r.progress {
-			return resp, fmt.Errorf("%s %s (Range: %s): unexpected content range: %q", req.Method, req.URL.String(), rangeHeader, cr)
+			return resp, fmt.Errorf("%s %s (Range: %s): unexpected content range: %q", req.Method, req.URL.Redacted(), rangeHeader, cr)
 		}
 		if r.total <= 0 {
 			r.total = total
diff --git a/pkg/apk/util.go b/pkg/apk/util.go
index d68f308..1cccc6f 100644
--- a/pkg/apk/util.go
+++ b/pkg/apk/util.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net/url"
 	"strings"
 
 	"golang.org/x/exp/slices"
@@ -85,3 +86,21 @@ func controlValue(controlTar io.Reader, want ...string) (map[string][]string, er
 	}
 	return mapping, nil
 }
+
+// redactURL hides the password of a URL that has one.
+func redactURL(u string) string {
+	parsed, err := url.Parse(u)
+	if err != nil || parsed.User == nil {
+		return u
+	}
+	return parsed.Redacted()
+}
+
+// withoutURL reduces an error about a URL that cannot be parsed, which quotes it and with it any password.
+func withoutURL(err error) error {
+	var uerr *url.Error
+	if errors.As(err, &uerr) {
+		return errors.New("invalid URL")
+	}
+	return err
+}
-- 
2.43.0


From 8f2ac55cb633483f2605d623991a41ec6959ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 28/40] fix: let a name in the package cache appear only when
 what it stands for is complete

---
 pkg/apk/implementation.go  | 18 +++++++++++-------
 pkg/expandapk/expandapk.go | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index f4c662c..d9c82e5 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -799,14 +799,10 @@ func (a *APK) cachePackage(ctx context.Context, pkg InstallablePackage, exp *exp
 
 	// Rename exp's temp files to content-addressable identifiers in the cache.
 
-	ctlHex := hex.EncodeToString(exp.ControlHash)
-	ctlDst := filepath.Join(cacheDir, ctlHex+".ctl.tar.gz")
-
-	if err := os.Rename(exp.ControlFile, ctlDst); err != nil {
-		return nil, fmt.Errorf("renaming control file: %w", err)
-	}
+	// The control file goes last: a package counts as cached once it is there, so
+	// everything else must already be in place.
 
-	exp.ControlFile = ctlDst
+	ctlHex := hex.EncodeToString(exp.ControlHash)
 
 	if exp.SignatureFile != "" {
 		sigDst := filepath.Join(cacheDir, ctlHex+".sig.tar.gz")
@@ -833,6 +829,14 @@ func (a *APK) cachePackage(ctx context.Context, pkg InstallablePackage, exp *exp
 	}
 	exp.TarFile = tarDst
 
+	ctlDst := filepath.Join(cacheDir, ctlHex+".ctl.tar.gz")
+
+	if err := os.Rename(exp.ControlFile, ctlDst); err != nil {
+		return nil, fmt.Errorf("renaming control file: %w", err)
+	}
+
+	exp.ControlFile = ctlDst
+
 	return exp, nil
 }
 
diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 30d9295..fa62ec8 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -119,13 +119,21 @@ func (a *APKExpanded) PackageData() (*os.File, error) {
 		return nil, fmt.Errorf("parsing %q: %w", a.PackageFile, err)
 	}
 
-	uf, err = os.Create(a.TarFile)
+	// Only a finished file may get the name others look for.
+	dir, err := os.MkdirTemp(filepath.Dir(a.TarFile), "expand-apk")
+	if err != nil {
+		return nil, err
+	}
+	defer os.RemoveAll(dir)
+
+	uf, err = os.Create(filepath.Join(dir, filepath.Base(a.TarFile)))
 	if err != nil {
 		return nil, fmt.Errorf("opening tar file %q: %w", a.TarFile, err)
 	}
 
 	buf := make([]byte, bufSize)
 	if _, err := io.CopyBuffer(uf, zr, buf); err != nil {
+		uf.Close()
 		return nil, fmt.Errorf("decompressing %q: %w", a.PackageFile, err)
 	}
 
@@ -133,6 +141,10 @@ func (a *APKExpanded) PackageData() (*os.File, error) {
 		return nil, fmt.Errorf("closing %q: %w", a.TarFile, err)
 	}
 
+	if err := os.Rename(uf.Name(), a.TarFile); err != nil {
+		return nil, fmt.Errorf("renaming tar file: %w", err)
+	}
+
 	return os.Open(a.TarFile)
 }
 
-- 
2.43.0


From d6919106bdc9477dd7c73d11570b913d8e047b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 29/40] fix: let goroutines share handles of in-memory files

---
 pkg/fs/memfs.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 0fd6bb4..ef8d59a 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -607,19 +607,20 @@ func newMemFile(node *node, name string, memfs *memFS, openMode int) *memFile {
 }
 
 func (f *memFile) Stat() (fs.FileInfo, error) {
-	if f.node == nil || f.fs == nil {
-		return nil, os.ErrClosed
-	}
 	f.fs.mu.RLock()
 	defer f.fs.mu.RUnlock()
+	if f.node == nil {
+		return nil, os.ErrClosed
+	}
 	return f.node.fileInfo(f.name), nil
 }
 
 func (f *memFile) Close() error {
-	if f.node == nil || f.fs == nil {
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
+	if f.node == nil {
 		return os.ErrClosed
 	}
-	f.fs = nil
 	f.node = nil
 	return nil
 }
@@ -634,7 +635,9 @@ func (f *memFile) access(mode int) error {
 }
 
 func (f *memFile) Read(b []byte) (int, error) {
-	if f.node == nil || f.fs == nil {
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
+	if f.node == nil {
 		return 0, os.ErrClosed
 	}
 	if err := f.access(os.O_RDONLY); err != nil {
@@ -643,8 +646,6 @@ func (f *memFile) Read(b []byte) (int, error) {
 	if len(b) == 0 {
 		return 0, nil
 	}
-	f.fs.mu.RLock()
-	defer f.fs.mu.RUnlock()
 	if f.offset >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
@@ -654,7 +655,9 @@ func (f *memFile) Read(b []byte) (int, error) {
 }
 
 func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
-	if f.node == nil || f.fs == nil {
+	f.fs.mu.RLock()
+	defer f.fs.mu.RUnlock()
+	if f.node == nil {
 		return 0, os.ErrClosed
 	}
 	if err := f.access(os.O_RDONLY); err != nil {
@@ -663,8 +666,6 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 	if off < 0 {
 		return 0, errors.New("negative offset")
 	}
-	f.fs.mu.RLock()
-	defer f.fs.mu.RUnlock()
 	if off < int64(len(f.node.data)) {
 		n = copy(p, f.node.data[off:])
 	}
@@ -675,11 +676,11 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 }
 
 func (f *memFile) Seek(offset int64, whence int) (int64, error) {
-	if f.node == nil || f.fs == nil {
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
+	if f.node == nil {
 		return 0, os.ErrClosed
 	}
-	f.fs.mu.RLock()
-	defer f.fs.mu.RUnlock()
 	switch whence {
 	case io.SeekStart:
 	case io.SeekCurrent:
@@ -697,7 +698,9 @@ func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (f *memFile) Write(p []byte) (n int, err error) {
-	if f.node == nil || f.fs == nil {
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
+	if f.node == nil {
 		return 0, os.ErrClosed
 	}
 	if err := f.access(os.O_WRONLY); err != nil {
@@ -706,8 +709,6 @@ func (f *memFile) Write(p []byte) (n int, err error) {
 	if len(p) == 0 {
 		return 0, nil
 	}
-	f.fs.mu.Lock()
-	defer f.fs.mu.Unlock()
 	if f.openMode&os.O_APPEND != 0 {
 		f.offset = int64(len(f.node.data))
 	}
-- 
2.43.0


From e5d70ff1653c03066049c51e7aa313515bf172cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 30/40] fix: report errors of finishing written files

---
 pkg/apk/implementation.go | 9 ++++++---
 pkg/apk/install.go        | 3 +++
 pkg/apk/installed.go      | 8 +++++++-
 pkg/passwd/group.go       | 5 ++++-
 pkg/passwd/passwd.go      | 5 ++++-
 5 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index d9c82e5..f0d7e92 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -295,10 +295,13 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 		return fmt.Errorf("could not create tarball file '%s', got error '%w'", scriptsFilePath, err)
 	}
 	defer TarFile.Close()
-	tarWriter := tar.NewWriter(TarFile)
-	defer tarWriter.Close()
-
 	// nothing to add to it; scripts.tar should be empty
+	if err := tar.NewWriter(TarFile).Close(); err != nil {
+		return fmt.Errorf("could not write tarball file '%s', got error '%w'", scriptsFilePath, err)
+	}
+	if err := TarFile.Close(); err != nil {
+		return fmt.Errorf("could not write tarball file '%s', got error '%w'", scriptsFilePath, err)
+	}
 
 	// get the alpine-keys base keys for our usage
 	if len(alpineVersions) > 0 {
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index b686a6d..0644489 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -67,6 +67,9 @@ func (a *APK) writeOneFile(header *tar.Header, r io.Reader, allowOverwrite bool)
 		return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
 	}
 	// override one of the
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("unable to finish %s: %w", header.Name, err)
+	}
 	return nil
 }
 
diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index bdae3dd..f9e30d8 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -100,7 +100,7 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 	if _, err := installedFile.Write(b); err != nil {
 		return err
 	}
-	return nil
+	return installedFile.Close()
 }
 
 // isInstalledPackage check if a specific package is installed
@@ -182,6 +182,9 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 	if err := tw.Close(); err != nil {
 		return fmt.Errorf("unable to finish scripts file %s: %w", scriptsFilePath, err)
 	}
+	if err := scripts.Close(); err != nil {
+		return fmt.Errorf("unable to finish scripts file %s: %w", scriptsFilePath, err)
+	}
 	return nil
 }
 
@@ -229,6 +232,9 @@ func (a *APK) updateTriggers(pkg *Package, controlTarGz io.Reader) error {
 		}
 	}
 
+	if err := triggers.Close(); err != nil {
+		return fmt.Errorf("unable to write triggers file %s: %w", triggersFilePath, err)
+	}
 	return nil
 }
 
diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index ba0f93e..7dff158 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -103,7 +103,10 @@ func (gf *GroupFile) WriteFile(fsys apkfs.FullFS, filePath string) error {
 	}
 	defer file.Close()
 
-	return gf.Write(file)
+	if err := gf.Write(file); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write writes an /etc/passwd file into an io.Writer.
diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 1481a23..949efbd 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -107,7 +107,10 @@ func (uf *UserFile) WriteFile(filePath string) error {
 	}
 	defer file.Close()
 
-	return uf.Write(file)
+	if err := uf.Write(file); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write writes an /etc/passwd file into an io.Writer.
-- 
2.43.0


From e56416bd9921fe494595bf3024f6ae2077bcf373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 31/40] fix: report an unreadable root when writing an archive

---
 pkg/tarball/write.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/tarball/write.go b/pkg/tarball/write.go
index 00f1092..c07b974 100644
--- a/pkg/tarball/write.go
+++ b/pkg/tarball/write.go
@@ -92,15 +92,15 @@ func (c *Context) writeTar(ctx context.Context, tw *tar.Writer, fsys fs.FS, user
 		if err := ctx.Err(); err != nil {
 			return err
 		}
+		if err != nil {
+			return err
+		}
+
 		// skip the root path, superfluous
 		if path == "." {
 			return nil
 		}
 
-		if err != nil {
-			return err
-		}
-
 		info, err := d.Info()
 		if err != nil {
 			return err
-- 
2.43.0


From 3179dd48d53cebdfa2cf972c9bc5c53f796fcc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 32/40] fix: show everything that is on disk or fail

---
 pkg/fs/rwosfs.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 95e2973..e6a8d4a 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -15,6 +15,7 @@
 package fs
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
@@ -120,20 +121,28 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 	// need to populate the overrides with appropriate info
 	root := os.DirFS(dir)
 
-	_ = fs.WalkDir(root, ".", func(path string, d fs.DirEntry, err error) error {
+	if err := fs.WalkDir(root, ".", func(path string, d fs.DirEntry, err error) error {
 		if path == "." {
 			return err
 		}
-		if err != nil {
-			// a directory that cannot be read is there nevertheless
+		if errors.Is(err, fs.ErrPermission) {
+			// a directory that may not be read is there nevertheless
 			return nil
 		}
-		fi, err := d.Info()
-		if err != nil {
-			return err
+		if err == nil {
+			var fi fs.FileInfo
+			if fi, err = d.Info(); err == nil {
+				err = f.adopt(path, fi)
+			}
 		}
-		return f.adopt(path, fi)
-	})
+		if errors.Is(err, fs.ErrNotExist) {
+			// it was removed in the meantime
+			return nil
+		}
+		return err
+	}); err != nil {
+		return nil
+	}
 
 	return f
 }
@@ -152,6 +161,9 @@ func (f *dirFS) adopt(path string, fi fs.FileInfo) error {
 	onDisk := f.place(parent, base)
 	if onDisk == "" {
 		// differs only in case from one that has been found, so we cannot tell which one we would get
+		if fi.IsDir() {
+			return fs.SkipDir
+		}
 		return nil
 	}
 	switch mode.Type() {
-- 
2.43.0


From 293adfae1e7da65378eccd678ad0d3e7d18ce37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 33/40] fix: replace a signed index as a whole

---
 pkg/signature/sign.go | 68 ++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 56852e3..cfe3fdc 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -36,7 +36,13 @@ import (
 
 func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 	log := clog.FromContext(ctx)
-	is, err := indexIsAlreadySigned(indexFile)
+	// read it only once, so that what is signed is what was found not to be signed
+	indexData, indexDigest, err := ReadAndHashIndexFile(indexFile)
+	if err != nil {
+		return err
+	}
+
+	is, err := indexIsAlreadySigned(indexFile, indexData)
 	if err != nil {
 		return err
 	}
@@ -47,11 +53,6 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 
 	log.Infof("signing index %s with key %s", indexFile, signingKey)
 
-	indexData, indexDigest, err := ReadAndHashIndexFile(indexFile)
-	if err != nil {
-		return err
-	}
-
 	sigData, err := RSASignSHA1Digest(indexDigest, signingKey, "")
 	if err != nil {
 		return fmt.Errorf("unable to sign index: %w", err)
@@ -82,18 +83,8 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 		return fmt.Errorf("unable to write signature tarball: %w", err)
 	}
 
-	idx, err := os.Create(indexFile)
-	if err != nil {
-		return fmt.Errorf("unable to open index for writing: %w", err)
-	}
-	defer idx.Close()
-
-	if _, err := io.Copy(idx, &sigBuffer); err != nil {
-		return fmt.Errorf("unable to write index signature: %w", err)
-	}
-
-	if _, err := idx.Write(indexData); err != nil {
-		return fmt.Errorf("unable to write index data: %w", err)
+	if err := replaceFile(indexFile, sigBuffer.Bytes(), indexData); err != nil {
+		return fmt.Errorf("unable to write signed index: %w", err)
 	}
 
 	log.Infof("signed index %s with key %s", indexFile, signingKey)
@@ -101,14 +92,45 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 	return nil
 }
 
-func indexIsAlreadySigned(indexFile string) (bool, error) {
-	index, err := os.Open(indexFile)
+// replaceFile replaces the content of a file as a whole, so that it is never lost or seen half written.
+func replaceFile(name string, content ...[]byte) (err error) {
+	// replace what a symlink points to, not the symlink
+	name, err = filepath.EvalSymlinks(name)
 	if err != nil {
-		return false, fmt.Errorf("cannot open index file %s: %w", indexFile, err)
+		return err
 	}
-	defer index.Close()
+	fi, err := os.Stat(name)
+	if err != nil {
+		return err
+	}
+
+	tmp, err := os.CreateTemp(filepath.Dir(name), "."+filepath.Base(name)+".*.tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	for _, b := range content {
+		if _, err := tmp.Write(b); err != nil {
+			return err
+		}
+	}
+	if err := tmp.Chmod(fi.Mode().Perm()); err != nil {
+		return err
+	}
+	if err := tmp.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), name)
+}
 
-	gzi, err := gzip.NewReader(index)
+func indexIsAlreadySigned(indexFile string, indexData []byte) (bool, error) {
+	gzi, err := gzip.NewReader(bytes.NewReader(indexData))
 	if err != nil {
 		return false, fmt.Errorf("cannot open index file %s as gzip: %w", indexFile, err)
 	}
-- 
2.43.0


From e6b6f078682a2ae7d0a0d1a54222a7f808cc274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 34/40] fix: refuse packages in conflict with each other

---
 pkg/apk/implementation.go | 53 ++++++++++++++++++++++++++++++++-------
 pkg/apk/repo.go           | 15 +++++++++++
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index f0d7e92..4f39aef 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -562,7 +562,7 @@ func (a *APK) FixateWorld(ctx context.Context, sourceDateEpoch *time.Time) error
 
 	// to fix the world, we need to:
 	// 1. Get the apkIndexes for each repository for the target arch
-	allpkgs, conflicts, err := a.ResolveWorld(ctx)
+	allpkgs, _, err := a.ResolveWorld(ctx)
 	if err != nil {
 		return fmt.Errorf("error getting package dependencies: %w", err)
 	}
@@ -574,14 +574,12 @@ func (a *APK) FixateWorld(ctx context.Context, sourceDateEpoch *time.Time) error
 	//     d. Update /lib/apk/db/scripts.tar
 	//     d. Update /lib/apk/db/triggers
 	//     e. Update the installed file
-	for _, pkg := range conflicts {
-		isInstalled, err := a.isInstalledPackage(pkg)
-		if err != nil {
-			return fmt.Errorf("error checking if package %s is installed: %w", pkg, err)
-		}
-		if isInstalled {
-			return fmt.Errorf("cannot install due to conflict with %s", pkg)
-		}
+	installed, err := a.GetInstalled()
+	if err != nil {
+		return fmt.Errorf("error getting installed packages: %w", err)
+	}
+	if err := checkConflicts(ctx, installed, allpkgs); err != nil {
+		return err
 	}
 	// Cast []*RepositoryPackage into []InstallablePackage.
 	allInstPkgs := make([]InstallablePackage, len(allpkgs))
@@ -592,6 +590,43 @@ func (a *APK) FixateWorld(ctx context.Context, sourceDateEpoch *time.Time) error
 	return a.InstallPackages(ctx, sourceDateEpoch, allInstPkgs)
 }
 
+// checkConflicts returns an error if any of the packages that would be added to the installed ones
+// is in conflict with any other package that would be there.
+func checkConflicts(ctx context.Context, installed []*InstalledPackage, toInstall []*RepositoryPackage) error {
+	isInstalled := make(map[string]bool, len(installed))
+	pkgs := make([]*Package, 0, len(installed)+len(toInstall))
+	for _, pkg := range installed {
+		isInstalled[pkg.Name] = true
+		pkgs = append(pkgs, &pkg.Package)
+	}
+	for _, pkg := range toInstall {
+		// Packages that are already installed are skipped.
+		if !isInstalled[pkg.Name] {
+			pkgs = append(pkgs, pkg.Package)
+		}
+	}
+
+	resolver := NewPkgResolver(ctx, nil)
+	for _, pkg := range pkgs {
+		for _, dep := range pkg.Dependencies {
+			if !strings.HasPrefix(dep, "!") {
+				continue
+			}
+			constraint := resolver.resolvePackageNameVersionPin(dep[1:])
+			for _, other := range pkgs {
+				// A package is not in conflict with itself.
+				if other.Name == pkg.Name || (isInstalled[pkg.Name] && isInstalled[other.Name]) {
+					continue
+				}
+				if resolver.satisfiesConstraint(other, constraint) {
+					return fmt.Errorf("cannot install due to conflict of %s with %s", pkg.Name, other.Name)
+				}
+			}
+		}
+	}
+	return nil
+}
+
 func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, allpkgs []InstallablePackage) error {
 	// TODO: Consider making this configurable option.
 	jobs := runtime.GOMAXPROCS(0)
diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index fcd5a98..c464605 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -863,6 +863,21 @@ func (p *PkgResolver) providesConstraint(pkg *RepositoryPackage, constraint pars
 	return false
 }
 
+// satisfiesConstraint returns whether the package, or something it provides, satisfies the constraint.
+func (p *PkgResolver) satisfiesConstraint(pkg *Package, constraint parsedConstraint) bool {
+	if pkg.Name == constraint.name {
+		if constraint.dep == versionAny {
+			return true
+		}
+		actualVersion, err1 := p.parseVersion(pkg.Version)
+		requiredVersion, err2 := p.parseVersion(constraint.version)
+		if err1 == nil && err2 == nil && constraint.dep.satisfies(actualVersion, requiredVersion) {
+			return true
+		}
+	}
+	return p.providesConstraint(&RepositoryPackage{Package: pkg}, constraint)
+}
+
 func (p *PkgResolver) parseVersion(version string) (Version, error) {
 	pkg, ok := p.parsedVersions[version]
 	if ok {
-- 
2.43.0


From 13efbad299866ec63dac28641db6c68aef30c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 35/40] fix: release what was opened when nobody else can

---
 pkg/apk/implementation.go  | 19 ++++++++++++++++++-
 pkg/expandapk/expandapk.go | 23 +++++++++++++++++------
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 4f39aef..ea85c3a 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -510,6 +510,7 @@ func (a *APK) CalculateWorld(ctx context.Context, allpkgs []*RepositoryPackage)
 			if err != nil {
 				return fmt.Errorf("fetching %s: %w", pkg.Name, err)
 			}
+			defer r.Close()
 			res, err := ResolveApk(gctx, r)
 			if err != nil {
 				return fmt.Errorf("resolving %s: %w", pkg.Name, err)
@@ -636,6 +637,15 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 
 	expanded := make([]*expandapk.APKExpanded, len(allpkgs))
 
+	// Clean up after packages that were not installed, too.
+	defer func() {
+		for _, exp := range expanded {
+			if exp != nil {
+				exp.Close()
+			}
+		}
+	}()
+
 	// Track what files were installed by which packages so we can deduplicate in idb.
 	allFiles := make([][]tar.Header, len(allpkgs))
 	infos := make([]*Package, len(allpkgs))
@@ -955,10 +965,12 @@ func (a *APK) cachedPackage(ctx context.Context, pkg InstallablePackage, cacheDi
 	}
 	info, err := data.Stat()
 	if err != nil {
+		data.Close()
 		return nil, err
 	}
 	exp.TarFS, err = tarfs.New(data, info.Size())
 	if err != nil {
+		data.Close()
 		return nil, err
 	}
 
@@ -1037,7 +1049,12 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 		return exp, nil
 	}
 
-	return a.cachePackage(ctx, pkg, exp, cacheDir)
+	cached, err := a.cachePackage(ctx, pkg, exp, cacheDir)
+	if err != nil {
+		exp.Close()
+		return nil, err
+	}
+	return cached, nil
 }
 
 // verifyExpanded checks that exp is the package that pkg stands for: its control section must have
diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index fa62ec8..52c3861 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -156,6 +156,9 @@ func (a *APKExpanded) APK() (io.ReadCloser, error) {
 		if fn != "" {
 			f, err := os.Open(fn)
 			if err != nil {
+				for _, c := range cs {
+					c.Close()
+				}
 				return nil, err
 			}
 			rs = append(rs, f)
@@ -346,17 +349,25 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 		return nil, err
 	}
 
+	sw, err := newExpandApkWriter(dir, "stream", "tar.gz")
+	if err != nil {
+		return nil, fmt.Errorf("expandApk error 1: %w", err)
+	}
+
+	var tarfile, data *os.File
+
 	defer func() {
 		// The caller only gets something to Close() when we succeed.
 		if rerr != nil {
+			for _, f := range []*os.File{sw.f, tarfile, data} {
+				if f != nil {
+					f.Close()
+				}
+			}
 			os.RemoveAll(dir)
 		}
 	}()
 
-	sw, err := newExpandApkWriter(dir, "stream", "tar.gz")
-	if err != nil {
-		return nil, fmt.Errorf("expandApk error 1: %w", err)
-	}
 	exR := newExpandApkReader(source)
 	tr := io.TeeReader(exR, sw)
 	var gzi *gzip.Reader
@@ -405,7 +416,7 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 		} else {
 			// While we verify checksums, also tee the tar to a separate file.
 			tarfilename := strings.TrimSuffix(sw.CurrentName(), ".gz")
-			tarfile, err := os.Create(tarfilename)
+			tarfile, err = os.Create(tarfilename)
 			if err != nil {
 				return nil, fmt.Errorf("opening tar file: %w", err)
 			}
@@ -493,7 +504,7 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 
 	expanded.TarFile = strings.TrimSuffix(expanded.PackageFile, ".gz")
 
-	data, err := expanded.PackageData()
+	data, err = expanded.PackageData()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7197453007534104dc26093d00929c4653f22103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 36/40] fix: close the responses of requests that fail

---
 pkg/apk/index.go     | 2 +-
 pkg/apk/transport.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 3e0c5db..f5d1114 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -237,6 +237,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if err != nil {
 			return nil, fmt.Errorf("unable to get repository index at %s: %w", asURL.Redacted(), err)
 		}
+		defer res.Body.Close()
 		switch res.StatusCode {
 		case http.StatusOK:
 			// this is fine
@@ -245,7 +246,6 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		default:
 			return nil, fmt.Errorf("unexpected status code %d when getting repository index for architecture %s at %s", res.StatusCode, arch, asURL.Redacted())
 		}
-		defer res.Body.Close()
 		buf := bytes.NewBuffer(nil)
 		if _, err := io.Copy(buf, res.Body); err != nil {
 			return nil, fmt.Errorf("unable to read repository index at %s: %w", asURL.Redacted(), err)
diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index b25471c..3619bc6 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -41,7 +41,12 @@ func (t *rangeRetryTransport) RoundTrip(req *http.Request) (*http.Response, erro
 		req:    req,
 	}
 
-	return r.reset(nil)
+	resp, err := r.reset(nil)
+	if err != nil && resp != nil && resp.Body != nil {
+		// Nobody looks at the response of a failed request.
+		resp.Body.Close()
+	}
+	return resp, err
 }
 
 type rangeRetryReader struct {
-- 
2.43.0


From 58450e23f13caf9235d42e99be274b1cd7dae540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 37/40] fix: do not hold a package's conflicts against itself

---
 pkg/apk/repo.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index c464605..40e8419 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -293,7 +293,8 @@ func (p *PkgResolver) nextPackage(packages []string, dq map[*RepositoryPackage]s
 }
 
 // Disqualify anything that provides "constraint". This is used for !foo style constraints.
-func (p *PkgResolver) disqualifyProviders(constraint string, dq map[*RepositoryPackage]string) {
+// If the constraint is one of a package, it does not apply to that package itself.
+func (p *PkgResolver) disqualifyProviders(pkg *RepositoryPackage, constraint string, dq map[*RepositoryPackage]string) {
 	parsed := p.resolvePackageNameVersionPin(constraint)
 	providers, ok := p.nameMap[parsed.name]
 	if !ok {
@@ -303,6 +304,9 @@ func (p *PkgResolver) disqualifyProviders(constraint string, dq map[*RepositoryP
 	conflicting := p.filterPackages(providers, dq, withName(parsed.name), withVersion(parsed.version, parsed.dep), withPreferPin(parsed.pin))
 
 	for _, conflict := range conflicting {
+		if conflict.RepositoryPackage == pkg {
+			continue
+		}
 		if _, dqed := dq[conflict.RepositoryPackage]; dqed {
 			// Already disqualified, don't bother generating reason.
 			continue
@@ -397,10 +401,11 @@ func (p *PkgResolver) disqualify(dq map[*RepositoryPackage]string, pkg *Reposito
 
 // constrain looks through a list of constraints and disqualifies anything that would
 // conflict with any constraints that have a version selector (i.e. not versionAny).
-func (p *PkgResolver) constrain(constraints []string, dq map[*RepositoryPackage]string) error {
+// The constraints are those of pkg, if any.
+func (p *PkgResolver) constrain(pkg *RepositoryPackage, constraints []string, dq map[*RepositoryPackage]string) error {
 	for _, constraint := range constraints {
 		if strings.HasPrefix(constraint, "!") {
-			p.disqualifyProviders(constraint[1:], dq)
+			p.disqualifyProviders(pkg, constraint[1:], dq)
 			continue
 		}
 
@@ -472,7 +477,7 @@ func (p *PkgResolver) GetPackagesWithDependencies(ctx context.Context, packages
 		installTracked  = map[string]*RepositoryPackage{}
 	)
 
-	if err := p.constrain(constraints, dq); err != nil {
+	if err := p.constrain(nil, constraints, dq); err != nil {
 		return nil, nil, fmt.Errorf("constraining initial packages: %w", err)
 	}
 
@@ -714,7 +719,7 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 
 	constraints := slices.Clone(pkg.Dependencies)
 
-	if err := p.constrain(constraints, dq); err != nil {
+	if err := p.constrain(pkg, constraints, dq); err != nil {
 		return nil, nil, fmt.Errorf("constraining deps for %q: %w", pkg.Filename(), err)
 	}
 
-- 
2.43.0


From 8e2f474df2c3c475bf52e7f01c84d677262ea2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 38/40] fix: install_if conditions are met by the version they
 ask for, whatever else is conditional

---
 pkg/apk/repo.go | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 40e8419..7fc1456 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -233,10 +233,8 @@ func NewPkgResolver(_ context.Context, indexes []NamedIndex) *PkgResolver {
 				RepositoryPackage: pkg,
 				pinnedName:        index.Name(),
 			})
-			for _, dep := range pkg.InstallIf {
-				if _, ok := installIfMap[dep]; !ok {
-					installIfMap[dep] = []*repositoryPackage{}
-				}
+			for _, condition := range pkg.InstallIf {
+				dep := p.resolvePackageNameVersionPin(condition).name
 				installIfMap[dep] = append(installIfMap[dep], &repositoryPackage{
 					RepositoryPackage: pkg,
 					pinnedName:        index.Name(),
@@ -573,30 +571,16 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 	// Walk the list rather than the map, so that the result does not depend on map order and so that
 	// what gets added here is looked at, too.
 	for i := 0; i < len(dependencies); i++ {
-		dep, depPkg := dependencies[i].Name, dependencies[i]
-		depPkgList, ok := p.installIfMap[dep]
-		if !ok {
-			depPkgList, ok = p.installIfMap[fmt.Sprintf("%s=%s", dep, depPkg.Version)]
-		}
-		if !ok {
-			continue
-		}
-		// this package "dep" can trigger an installIf. It might not be enough, so check it
-		for _, installIfPkg := range depPkgList {
+		// this package can trigger an installIf. It might not be enough, so check it
+		candidates := slices.Clone(p.installIfMap[dependencies[i].Name])
+		p.sortPackages(candidates, nil, "", nil, nil, "")
+		for _, installIfPkg := range candidates {
 			var matchCount int
 			for _, subDep := range installIfPkg.InstallIf {
-				// two possibilities: package name, or name=version
+				// a package name, possibly with a version constraint
 				constraint := p.resolvePackageNameVersionPin(subDep)
-				name, version := constraint.name, constraint.version
-				// precise match of whatever it is, take it and continue
-				if _, ok := added[subDep]; ok {
+				if addedPkg, ok := added[constraint.name]; ok && p.satisfiesConstraint(addedPkg.Package, constraint) {
 					matchCount++
-					continue
-				}
-				// didn't get a precise match, so check if the name and version match
-				if addedPkg, ok := added[name]; ok && addedPkg.Version == version {
-					matchCount++
-					continue
 				}
 			}
 			if matchCount == len(installIfPkg.InstallIf) {
@@ -604,6 +588,10 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 				if _, ok := added[installIfPkg.Name]; ok {
 					continue
 				}
+				// another package of this name has been chosen already
+				if chosen, ok := existing[installIfPkg.Name]; ok && chosen != installIfPkg.RepositoryPackage {
+					continue
+				}
 				if _, dqed := dq[installIfPkg.RepositoryPackage]; dqed {
 					continue
 				}
-- 
2.43.0


From 6b3ea87bae1bed4452191a8e9d7b96d9f52fb4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 39/40] fix: do not add packages of tagged repositories through
 install_if without the tag

---
 pkg/apk/repo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 7fc1456..63fe076 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -575,6 +575,9 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 		candidates := slices.Clone(p.installIfMap[dependencies[i].Name])
 		p.sortPackages(candidates, nil, "", nil, nil, "")
 		for _, installIfPkg := range candidates {
+			if installIfPkg.pinnedName != "" && installIfPkg.pinnedName != pin {
+				continue
+			}
 			var matchCount int
 			for _, subDep := range installIfPkg.InstallIf {
 				// a package name, possibly with a version constraint
-- 
2.43.0


From 179a01ade9b197a5f0d497dac2e23f6470ca9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 40/40] fix: a pipe or socket on disk is not a regular file

---
 pkg/fs/rwosfs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index e6a8d4a..57f14a6 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -190,7 +190,8 @@ func (f *dirFS) adopt(path string, fi fs.FileInfo) error {
 		}
 		n = newDeviceNode(base, uint32(perm), dev)
 	default:
-		n = newFileNode(base, perm)
+		// what is no regular file, such as a pipe or a socket, must not pass for one
+		n = newFileNode(base, mode)
 	}
 	f.insert(parent, base, n, onDisk)
 	return nil
-- 
2.43.0


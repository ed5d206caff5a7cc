From 38dc2af886322609f56f9bdb61e4a68213b3a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 01/24] fix: parse all five version components and tolerate
 single-component versions

---
 desc/version.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index 84dda6c..e69fd7f 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -8,9 +8,11 @@ import (
 // ParseVersion parses a package string to a version
 func ParseVersion(v string) Version {
 	ver := Version{String: v}
-	parts := regexp.MustCompile(`[\.-]`).Split(v, 4)
+	parts := regexp.MustCompile(`[\.-]`).Split(v, -1)
 	ver.Major, _ = strconv.Atoi(parts[0])
-	ver.Minor, _ = strconv.Atoi(parts[1])
+	if len(parts) > 1 {
+		ver.Minor, _ = strconv.Atoi(parts[1])
+	}
 	if len(parts) > 2 {
 		ver.Patch, _ = strconv.Atoi(parts[2])
 	}
-- 
2.43.0


From 25720acfe45d26b236fdc7dcf2802e1b2df96f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 02/24] fix: sort versions lexicographically over all
 components

---
 desc/version.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index e69fd7f..afe7d8b 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -74,19 +74,7 @@ func CompareVersions(v1 Version, v2 Version) int {
 type Versions []Version
 
 func isLowerVersion(v1 Version, v2 Version) bool {
-	if v1.Major < v2.Major {
-		return true
-	}
-	if v1.Minor < v2.Minor {
-		return true
-	}
-	if v1.Dev < v2.Dev {
-		return true
-	}
-	if v1.Other < v2.Other {
-		return true
-	}
-	return false
+	return CompareVersions(v1, v2) < 0
 }
 func (v Versions) Len() int           { return len(v) }
 func (v Versions) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
-- 
2.43.0


From 8bdc54a7c41ea07f1ddbc61b714070f57cd5faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 03/24] fix: apply the repository's default type to packages
 pinned to a repository only

---
 cran/pkg_nexus.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cran/pkg_nexus.go b/cran/pkg_nexus.go
index c235fa4..2bf0efa 100644
--- a/cran/pkg_nexus.go
+++ b/cran/pkg_nexus.go
@@ -128,12 +128,13 @@ func isCorrectRepo(pkg string, r RepoURL, cfg map[string]PkgConfig) bool {
 func (pkgNexus *PkgNexus) GetPackage(pkg string) (desc.Desc, PkgConfig, bool) {
 	cfg, exists := pkgNexus.Config.Packages[pkg]
 	st := pkgNexus.DefaultSourceType
-	if exists && cfg.Type != Default {
+	hasType := exists && cfg.Type != Default
+	if hasType {
 		st = cfg.Type
 	}
 	for _, db := range pkgNexus.Db {
 		rst := st
-		if db.DefaultSourceType != rst && !exists && db.DefaultSourceType != Default {
+		if db.DefaultSourceType != rst && !hasType && db.DefaultSourceType != Default {
 			rst = db.DefaultSourceType
 		}
 		// For now package existence is checked exactly as the package is specified
-- 
2.43.0


From 16d17c2b8c7a2e1e027e08b0f5d6cfc6a675c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 04/24] fix: offer packages that depend on R without naming a
 version

---
 cran/repodb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 07014ee..3518c23 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -292,6 +292,9 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 	// v2 for R >= 3.5
 	packageValid := false
 	switch pkgRConstraint.Constraint {
+	case desc.None:
+		// "Depends: R" without a version is met by every R
+		packageValid = true
 	case desc.GT:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) > 0
 	case desc.GTE:
-- 
2.43.0


From 74733bca6ede36ae5e7f7065d7262a5e393f502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 05/24] fix: count Depends among the dependencies of tarballs
 and DESCRIPTION files

---
 desc/structs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desc/structs.go b/desc/structs.go
index 01806d7..e1efd0a 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -81,6 +81,12 @@ type Desc struct {
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
 	combined := map[string]Dep{}
 
+	for key, value := range d.Depends {
+		// R itself is not a package that could be installed
+		if key != "R" {
+			combined[key] = value
+		}
+	}
 	for key, value := range d.Imports {
 		combined[key] = value
 	}
-- 
2.43.0


From 531701823bd08d28bf267d87ab002ba79c1005c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 06/24] fix: do not record an empty requirement for a trailing
 comma in a dependency field

---
 desc/desc.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/desc/desc.go b/desc/desc.go
index 7203ead..208fd1b 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -72,12 +72,20 @@ func NewDesc(d desc) Desc {
 	}
 	if len(d.Imports) > 0 {
 		for _, dp := range d.Imports {
+			if dp == "" {
+				// a trailing or doubled comma lists nothing
+				continue
+			}
 			dep := ParseDep(dp)
 			dsc.Imports[dep.Name] = dep
 		}
 	}
 	if len(d.Suggests) > 0 {
 		for _, dp := range d.Suggests {
+			if dp == "" {
+				// a trailing or doubled comma lists nothing
+				continue
+			}
 			dep := ParseDep(dp)
 			dsc.Suggests[dep.Name] = dep
 		}
@@ -85,12 +93,20 @@ func NewDesc(d desc) Desc {
 	}
 	if len(d.Depends) > 0 {
 		for _, dp := range d.Depends {
+			if dp == "" {
+				// a trailing or doubled comma lists nothing
+				continue
+			}
 			dep := ParseDep(dp)
 			dsc.Depends[dep.Name] = dep
 		}
 	}
 	if len(d.LinkingTo) > 0 {
 		for _, dp := range d.LinkingTo {
+			if dp == "" {
+				// a trailing or doubled comma lists nothing
+				continue
+			}
 			dep := ParseDep(dp)
 			dsc.LinkingTo[dep.Name] = dep
 		}
-- 
2.43.0


From 6fa92208e4caf94907234d7256d82b68bb090947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 07/24] fix: announce only required outdated packages as
 packages to install

---
 gpsr/dependencies.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index 0f1d113..a956b89 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -167,9 +167,14 @@ func (ip *InstallPlan) GetNumPackagesToInstall() int {
 		}
 	}
 	toUpdate := 0
-	// Everything in OutdatedPackages should be required, otherwise pkgr wouldn't have checked for an updated version.
+	// OutdatedPackages covers every installed package, but only the required ones are updated.
 	if ip.Update {
-		toUpdate = len(ip.OutdatedPackages)
+		for _, op := range ip.OutdatedPackages {
+			_, isAdditionalPkgInstallation := ip.AdditionalPackageSources[op.Package]
+			if funk.Contains(requiredPackages, op.Package) && !isAdditionalPkgInstallation {
+				toUpdate = toUpdate + 1
+			}
+		}
 	}
 
 	return len(requiredPackages) - installedRequired + toUpdate
-- 
2.43.0


From a15cc86cafe67cea63a0edc92054dafee56b3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 08/24] fix: do not add base or disabled recommended packages
 through Suggests

---
 gpsr/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 9258516..21f9066 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -62,7 +62,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 			if r != "R" && !ok {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
-				if exists {
+				if exists && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
 					appendToGraph(m, pkg, dependencyConfigs, pkgNexus)
 				}
 			}
-- 
2.43.0


From f8a5c84240a1ca8d39f636bd14715b08332b0eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 09/24] fix: plan an installation without packages instead of
 crashing

---
 gpsr/solution.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index 3816786..06e0345 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -42,6 +42,11 @@ func ResolveInstallationReqs(
 		fmt.Println("error resolving graph")
 		return InstallPlan{}, err
 	}
+	// without any packages there are no layers
+	var startingPackages []string
+	if len(resolved) > 0 {
+		startingPackages = resolved[0]
+	}
 	for i, layer := range resolved { //resolved is a 2d slice, a "list of lists", each sublist being a layer of packages that can be installed
 		if i == 0 {
 			// don't need to know dep tree for first layer as shouldn't have any deps
@@ -83,7 +88,7 @@ func ResolveInstallationReqs(
 	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
 
 	installPlan := InstallPlan{
-		StartingPackages:  resolved[0],
+		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
 		OutdatedPackages:  outdatedPackages,
-- 
2.43.0


From 95e7ff6b234487071f4a7810657bb4c75ad95b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 10/24] fix: move a package aside only once when it is both
 outdated and replaced by a tarball

---
 rollback/types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rollback/types.go b/rollback/types.go
index 9b827f8..a8ee532 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -55,7 +55,15 @@ func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) {
 
 func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) {
 	var overwriteAttempts []UpdateAttempt
+	staged := make(map[string]bool)
+	for _, ua := range rp.UpdateRollbacks {
+		staged[ua.Package] = true
+	}
 	for pkg := range rp.InstallPlan.AdditionalPackageSources {
+		// an outdated package may also be overwritten by a tarball, but its folder can only be moved aside once
+		if staged[pkg] {
+			continue
+		}
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
 		if isPreinstalled {
 			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
-- 
2.43.0


From 1ede682a028ee17b399caa754525bcc6a1e58d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 11/24] fix: download packages before changing the library

---
 cmd/install.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index b8ad05a..957ed9f 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -73,7 +73,22 @@ func rInstall(cmd *cobra.Command, args []string) error {
 				"library": cfg.Library,
 			}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
 		}
+	}
+
+	// Create a list of package download objects using our install plan and our "nexus" object.
+	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
+
+	// Retrieve a cache to store any packages we need to download for the install.
+	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
+
+	// Create a pkgMap object, which helps us with parallel downloads (?)
+	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
+	if err != nil {
+		log.Fatalf("error downloading packages: %s", err)
+	}
 
+	// Change the library only now, so that failed downloads leave it as it was.
+	if installPlan.CreateLibrary {
 		err := fs.MkdirAll(cfg.Library, 0755)
 		if err != nil {
 			log.WithFields(log.Fields{
@@ -89,18 +104,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	}
 	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
-	// Create a list of package download objects using our install plan and our "nexus" object.
-	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
-
-	// Retrieve a cache to store any packages we need to download for the install.
-	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
-
-	// Create a pkgMap object, which helps us with parallel downloads (?)
-	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
-	if err != nil {
-		log.Fatalf("error downloading packages: %s", err)
-	}
-
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
 	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
-- 
2.43.0


From 06e5f3a7032580532391ac71a3119655f1c8a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 12/24] fix: report an error when the package file or the
 working directory is missing

---
 rcmd/install.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 28a40b3..b1115b9 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -85,6 +85,9 @@ func Install(
 		ok, err := afero.DirExists(fs, rdir)
 		if !ok || err != nil {
 			// TODO replace with better error
+			if err == nil {
+				err = fmt.Errorf("directory %s does not exist", rdir)
+			}
 			return CmdResult{
 				Stderr:   err.Error(),
 				ExitCode: 1,
@@ -106,15 +109,12 @@ func Install(
 			"ok":   ok,
 			"err":  err,
 		}).Error("package tarball not found")
-		var errs string
-		if err != nil {
-			errs = err.Error()
-		} else {
+		if err == nil {
 			// nil error not ok
-			errs = fmt.Sprintf("%s does not exist", pkgPath)
+			err = fmt.Errorf("%s does not exist", pkgPath)
 		}
 		return CmdResult{
-			Stderr:   fmt.Sprintf("err: %s, ok: %v", errs, ok),
+			Stderr:   fmt.Sprintf("err: %s, ok: %v", err, ok),
 			ExitCode: 1,
 		}, err
 	}
-- 
2.43.0


From 3a207cb9eec856b753dd922e67f8c20aee313171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 13/24] fix: end the install when packages are skipped or a
 binary cannot be kept

---
 rcmd/install.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index b1115b9..6d89bc8 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -483,6 +483,7 @@ func InstallPackagePlan(
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
+						wg.Done()
 						return
 					}
 					// want to delete binaries from the existing tmpdir
@@ -502,6 +503,7 @@ func InstallPackagePlan(
 		for p := range c {
 			if anyFailed {
 				// stop trying to install any more
+				wg.Done()
 				continue
 			}
 
@@ -510,6 +512,7 @@ func InstallPackagePlan(
 			_, seen := requestedPkgs[p]
 			if seen {
 				// should only need to request a package once to install
+				wg.Done()
 				continue
 			} else {
 				requestedPkgs[p] = true
-- 
2.43.0


From 47bc594a741ecb9549129b91b6471f54b5ddd633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 14/24] fix: report an error when the server does not deliver a
 package

---
 cran/download-package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 538efbc..3a091e9 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -216,7 +216,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			}).Warn("bad server response")
 			b, _ := ioutil.ReadAll(resp.Body)
 			log.WithField("package", d.Package.Package).Println("body: ", string(b))
-			return Download{Metadata: d}, err
+			return Download{Metadata: d}, fmt.Errorf("bad server response for %s: %s", pkgdl, resp.Status)
 		}
 		from = resp.Body
 		// not sure if we need to close both from and resp.Body but shouldn't be problematic to call twice just in case
-- 
2.43.0


From ab67ba0745b9f84c39b03681d2eef8bbd3b1ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 15/24] fix: keep an interrupted download out of the package
 cache

---
 cran/download-package.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 3a091e9..bd8e0cb 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -232,7 +232,9 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		defer from.Close()
 	}
 
-	file, err := fs.Create(dest)
+	// download to a temporary name, so that an interrupted download is not taken for a complete one later
+	partial := dest + ".part"
+	file, err := fs.Create(partial)
 	if err != nil {
 		log.WithFields(log.Fields{
 			"package": d.Package,
@@ -240,9 +242,15 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		}).Warn("error downloading package, no tarball created")
 		return Download{}, err
 	}
-	defer file.Close()
 	size, err := io.Copy(file, from)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = fs.Rename(partial, dest)
+	}
 	if err != nil {
+		fs.Remove(partial)
 		return Download{Metadata: d}, err
 	}
 
-- 
2.43.0


From dfd610f3167dad0a9650d156980033fc76b307e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 16/24] fix: report a repository whose package list cannot be
 obtained

---
 cran/repodb.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 3518c23..b90097b 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -198,6 +198,11 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				if fi, err := os.Open(pkgdir); !os.IsNotExist(err) {
 					body, err = ioutil.ReadAll(fi)
 					fi.Close()
+					if err != nil {
+						err = fmt.Errorf("error reading package file %s: %s", pkgdir, err)
+						downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
+						return
+					}
 				} else {
 					err = fmt.Errorf("no package file found at: %s", pkgdir)
 					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
@@ -264,7 +269,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 	}
 	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if len(repoDb.DescriptionsBySourceType) > 1 && errorCount == len(repoDb.DescriptionsBySourceType) {
+	if errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
 
-- 
2.43.0


From fd6c59619959ae95bfe5f945e8f8fb4d3122be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 17/24] fix: report hard links in archives instead of
 extracting them as empty files

---
 internal/archive/extract.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/archive/extract.go b/internal/archive/extract.go
index bc25c50..80f2dba 100644
--- a/internal/archive/extract.go
+++ b/internal/archive/extract.go
@@ -25,7 +25,7 @@ import (
 //
 //     Supporting symbolic links is not necessary because, even if a package's
 //     source tree has a symbolic link, 'R CMD build' dereferences the link when
-//     preparing the tarball.
+//     preparing the tarball.  Likewise, an error is returned for hard links.
 //
 //   - An error is returned if any entry creates a file that points outside of
 //     the target directory (e.g., a top-level entry for "../foo" or an entry
@@ -85,6 +85,12 @@ func extractFile(ctx context.Context, fi archives.FileInfo, root *os.Root) error
 	case mode.IsDir():
 		return os.MkdirAll(filename, 0o777)
 	case mode.IsRegular():
+		// The mode of a hard link entry is that of a regular file, but the entry
+		// has no content of its own.
+		if fi.LinkTarget != "" {
+			return fmt.Errorf("unsupported link to %q: %q", fi.LinkTarget, fi.NameInArchive)
+		}
+
 		// Don't assume that an entry for each parent directory was already
 		// encountered or that an entry even exists (issue 259).
 		if err := os.MkdirAll(filepath.Dir(filename), 0o777); err != nil {
-- 
2.43.0


From ff2927c7a2b756a8ead05886296ba3b26d7be49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 18/24] fix: add only missing packages and keep all lines when
 editing the Packages list

---
 configlib/add_package.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 75a816c..bcda01a 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -1,8 +1,6 @@
 package configlib
 
 import (
-	"bufio"
-	"bytes"
 	"fmt"
 	"github.com/dpastoor/goutils"
 	log "github.com/sirupsen/logrus"
@@ -23,9 +21,8 @@ func AddPackages(pkgs []string) error {
 		return err
 	}
 	var lines []string
-	scanner := bufio.NewScanner(bytes.NewReader(yf))
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	if len(yf) > 0 {
+		lines = strings.Split(strings.TrimSuffix(string(yf), "\n"), "\n")
 	}
 
 	var pc PkgrConfig
@@ -39,6 +36,9 @@ func AddPackages(pkgs []string) error {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
+		if funk.ContainsString(pkgsToInstall, p) {
+			continue
+		}
 		pkgsToInstall = append(pkgsToInstall, p)
 	}
 	newYml := insertPackages(lines, pkgsToInstall...)
@@ -66,6 +66,9 @@ func insertPackages(lines []string, pkgs ...string) []string {
 	var packageStartIndex int
 	var packagesSet bool
 	var outputLines []string
+	if len(pkgs) == 0 {
+		return lines
+	}
 	for i, line := range lines {
 		if strings.HasPrefix(line, "Packages:")	{
 			packagesSet = true
@@ -80,15 +83,18 @@ func insertPackages(lines []string, pkgs ...string) []string {
 		}
 	} else {
 		outputLines = append(outputLines, lines[:packageStartIndex+1]...)
-		// given comments might precede packages, we need to find the first non-comment line
-		var firstPackageIndex int
-		for i, l := range lines[packageStartIndex:] {
+		// given comments might precede packages, we need to find the first non-comment line;
+		// there is none if the section is empty
+		var numPadding int
+		for _, l := range lines[packageStartIndex+1:] {
 			if strings.HasPrefix(strings.TrimSpace(l), "-") {
-				firstPackageIndex = i
+				numPadding = strings.Index(l, "-")
+				break
+			}
+			if startsSection(l) {
 				break
 			}
 		}
-		numPadding := strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
 
 		padding := strings.Repeat(" ", numPadding)
 		for _, pkg := range pkgs {
@@ -99,4 +105,10 @@ func insertPackages(lines []string, pkgs ...string) []string {
 
 	return outputLines
 
-}
\ No newline at end of file
+}
+
+// startsSection reports whether a line of the yml config file starts a new
+// section, as opposed to being part of the previous one, blank or a comment.
+func startsSection(line string) bool {
+	return strings.TrimSpace(line) != "" && !strings.ContainsAny(line[:1], " \t#-")
+}
-- 
2.43.0


From d68a4ba93d88f08d813b36cda611f430a218c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 19/24] fix: remove only the list item of exactly the named
 package

---
 configlib/config.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index 72a20fe..63bbbaf 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -248,21 +248,24 @@ func RemovePackage(name string) error {
 // remove remove a package from the Package section of the yml config file
 func remove(ymlfile string, packageName string) error {
 	appFS := afero.NewOsFs()
-	yf, _ := afero.ReadFile(appFS, ymlfile)
+	yf, err := afero.ReadFile(appFS, ymlfile)
+	if err != nil {
+		return err
+	}
 	fi, err := os.Stat(ymlfile)
 	if err != nil {
 		return err
 	}
 	var out []byte
 	i := 0
+	inPackages := false
 	lines := bytes.Split(yf, []byte("\n"))
 	for _, line := range lines {
 		i++
-		// trim the line to detect the start of the list of packages
-		// but do not write the trimmed string as it may cause an
-		// unneeded file diff to the yml file
-		sline := bytes.TrimLeft(line, " ")
-		if bytes.HasPrefix(sline, []byte("- "+packageName)) {
+		if startsSection(string(line)) {
+			inPackages = bytes.HasPrefix(line, []byte("Packages:"))
+		}
+		if inPackages && listsPackage(string(line), packageName) {
 			continue
 		}
 		out = append(out, line...)
@@ -277,6 +280,20 @@ func remove(ymlfile string, packageName string) error {
 	return nil
 }
 
+// listsPackage reports whether a line of the yml config file is the list item
+// for exactly this package, possibly quoted or followed by a comment.
+func listsPackage(line string, packageName string) bool {
+	// trim the line to detect the item but do not write the trimmed
+	// string as it may cause an unneeded file diff to the yml file
+	item := strings.TrimSpace(line)
+	if !strings.HasPrefix(item, "- ") {
+		return false
+	}
+	item, _, _ = strings.Cut(item[1:], " #")
+	item = strings.TrimSpace(item)
+	return item == packageName || item == `"`+packageName+`"` || item == "'"+packageName+"'"
+}
+
 // SetCustomizations ... set ENV values in Rsettings
 func SetCustomizations(rSettings rcmd.RSettings, cfg PkgrConfig) rcmd.RSettings {
 	pkgCustomizationsSlice := cfg.Customizations.Packages
-- 
2.43.0


From b1cea97f2c7b52122ae6033a1160be10d621f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 20/24] fix: keep all lines of the DESCRIPTION but earlier
 stamps, and the whole original repository

---
 rcmd/install.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 6d89bc8..b5d3860 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -570,10 +570,14 @@ func writeDescriptionInfo(fs afero.Fs, ir InstallRequest, ia InstallArgs) {
 // function to apply relevant changes to DESCRIPTION file (if applicable) and ultimately write out the updated
 // DESCRIPTION file.
 func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL, repo string) ([]string, error) {
-	descriptionLines, err := goutils.ReadLinesFS(fs, filename)
+	description, err := afero.ReadFile(fs, filename)
 	if err != nil {
 		return nil, err
 	}
+	var descriptionLines []string
+	if len(description) > 0 {
+		descriptionLines = strings.Split(strings.TrimSuffix(string(description), "\n"), "\n")
+	}
 	descriptionFinal := updateDescriptionInfoByLines(descriptionLines, version, installType, repoURL, repo)
 	err = writeUpdatedDescriptionFile(fs, filename, descriptionFinal)
 
@@ -604,16 +608,18 @@ func updateDescriptionInfoByLines(lines []string, version, installType, repoURL,
 		//log.Info("Starting repo: " + repo)
 
 		// Don't add these lines to final set, if they exist. This way, we can add/"overwrite" them at the end.
-		if strings.Contains(line, "PkgrVersion:") ||
-			strings.Contains(line, "PkgrInstallType:") ||
-			strings.Contains(line, "PkgrRepositoryURL") {
+		if strings.HasPrefix(line, "PkgrVersion:") ||
+			strings.HasPrefix(line, "PkgrInstallType:") ||
+			strings.HasPrefix(line, "PkgrRepositoryURL:") {
 			continue
 		}
 
-		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
-			originalRepo := strings.Trim(strings.Split(line, ":")[1], " ")
-			newLines = append(newLines, "OriginalRepository: "+originalRepo)
-			line = "Repository: " + repo
+		if strings.HasPrefix(line, "Repository:") {
+			originalRepo := strings.TrimSpace(strings.TrimPrefix(line, "Repository:"))
+			if originalRepo != strings.TrimSpace(repo) {
+				newLines = append(newLines, "OriginalRepository: "+originalRepo)
+				line = "Repository: " + repo
+			}
 		}
 		newLines = append(newLines, line)
 	}
-- 
2.43.0


From cd8de32f746b0b0ca8b9028571fe24a0f5b734e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 21/24] fix: one value per variable in the environment of R,
 whatever the library path

---
 rcmd/configure.go | 19 ++++++++++---------
 rcmd/nvp.go       | 10 +++++++++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 4a73e6b..3ed4387 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -16,7 +16,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 	envVars := []string{}
 
 	for _, p := range rs.GlobalEnvVars.Pairs {
-		_, exists := envList.Get(p.Name)
+		_, exists := envList.Get(strings.Trim(p.Name, " "))
 		if !exists {
 			envList.Append(p.Name, p.Value)
 		}
@@ -27,7 +27,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 		// not sure if this is needed when logging maps but for simple json want a single string
 		// so will also collect in a separate set of envs and log as a single combined string
 		for k, v := range pkgEnv {
-			envList.Append(k, v)
+			envList.set(k, strings.Trim(v, " "))
 		}
 		log.WithFields(log.Fields{
 			"envs":    pkgEnv,
@@ -38,6 +38,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 	// system env vars generally
 	for _, ev := range sysEnvVars {
 		evs := strings.SplitN(ev, "=", 2)
+		evs[0] = strings.Trim(evs[0], " ")
 		if len(evs) > 1 && evs[1] != "" {
 
 			// we don't want to track the order of these anyway since they should take priority in the end
@@ -77,21 +78,21 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 	}
 
 	// Force R_LIBS_USER to be an empty dir so that we can be sure it won't get overridden by default R paths.
-	tmpdir := filepath.Join(
-		os.TempDir(),
-		randomString(12),
-	)
-	err := os.MkdirAll(tmpdir, 0777)
+	tmpdir, err := os.MkdirTemp("", "R_LIBS_USER")
 	if err != nil {
 		log.WithFields(log.Fields{
 			"error": err,
 		}).Warn("error making temporary directory while overriding R_LIBS_USER for install.")
+		tmpdir = filepath.Join(
+			os.TempDir(),
+			randomString(12),
+		)
 	}
-	envList.Append("R_LIBS_USER", tmpdir)
+	envList.set("R_LIBS_USER", tmpdir)
 
 	ok, lp := rs.LibPathsEnv()
 	if ok {
-		envList.AppendNvp(lp)
+		envList.set("R_LIBS_SITE", strings.TrimPrefix(lp, "R_LIBS_SITE="))
 	}
 
 	for _, p := range envList.Pairs {
diff --git a/rcmd/nvp.go b/rcmd/nvp.go
index 76b3265..71ed700 100644
--- a/rcmd/nvp.go
+++ b/rcmd/nvp.go
@@ -10,9 +10,17 @@ func (list *NvpList) Append(name, value string) {
 	list.Pairs = append(list.Pairs, Nvp{Name: strings.Trim(name, " "), Value: strings.Trim(value, " ")})
 }
 
+// set updates the value for a name, or appends the pair if the name is not in the list yet
+func (list *NvpList) set(name, value string) {
+	name = strings.Trim(name, " ")
+	if _, exists := list.Update(name, value); !exists {
+		list.Pairs = append(list.Pairs, Nvp{Name: name, Value: value})
+	}
+}
+
 // AppendNvp append a string of name=value pair to the list as an Nvp object
 func (list *NvpList) AppendNvp(nvp string) {
-	b := strings.Split(nvp, "=")
+	b := strings.SplitN(nvp, "=", 2)
 	if len(b) == 2 {
 		list.Append(b[0], b[1])
 	}
-- 
2.43.0


From 822a4f34995e33923e90b908a492fdc2502a6bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:53 +0000
Subject: [PATCH 22/24] fix: clean cache removes unpacked tarballs from the
 cache in force

With no cache configured the folder was looked for relative to the working
directory, so a folder outside the cache was removed and the unpacked copy
was kept.
---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 923c19c..77d2136 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -113,7 +113,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cfg.Cache, hashedDirectoryName))
+		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
-- 
2.43.0


From b315419344f1fef2f5c7368b765d8415df497b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:53 +0000
Subject: [PATCH 23/24] fix: cleaning a cache that does not exist no longer
 panics

---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 77d2136..1c554dd 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -136,10 +136,10 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
-	defer cacheDirFsObject.Close()
 	if err != nil {
 		return err
 	}
+	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
 	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
-- 
2.43.0


From 501380c85f656a2abe25ac59f83565c965b2eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:27 +0000
Subject: [PATCH 24/24] fix: the load report counts a package that is listed
 twice once

---
 cmd/structs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/structs.go b/cmd/structs.go
index 5bca4d1..8882467 100644
--- a/cmd/structs.go
+++ b/cmd/structs.go
@@ -26,6 +26,10 @@ func InitLoadReport(rMetadata RSessionMetadata) LoadReport {
 }
 
 func (report *LoadReport) AddResult(pkg string, result LoadResult) {
+	// A package may be listed twice; its latest result replaces the earlier one.
+	if earlier, reported := report.LoadResults[pkg]; reported && !earlier.Success {
+		report.Failures = report.Failures - 1
+	}
 	report.LoadResults[pkg] = result
 	if !result.Success {
 		report.Failures = report.Failures + 1
-- 
2.43.0


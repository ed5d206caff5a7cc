#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that the wording stays consistent)."""
import json, os
P = []
def p(id, title, stmt, over, qtext, why, files, mech, obs):
    P.append(dict(id=id, title=title, statement=stmt,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)))

p("C01", "Package versions are ordered component by component",
  "Comparing two version strings splits them at '.' and '-' and compares up to five numeric components from left to right, a missing component counting as zero; the first differing component decides and equal components mean equal versions. The result is a total preorder (antisymmetric and transitive), no version string makes the comparison crash, and sorting a list of versions uses exactly this order.",
  ["inputs"], "all pairs and triples of version strings / version values",
  "Tests compare a dozen hand-picked pairs; an ordering law over all triples, and five-component or single-component versions, are never sampled.",
  ["desc/version.go"], [("ParseVersion", "desc/version.go"), ("CompareVersions", "desc/version.go"), ("Versions.Less", "desc/version.go")],
  ["return values of the version comparison functions"])
p("C02", "A package is offered iff its R version requirement is met",
  "A repository entry that declares a dependency on R with an operator and version is offered exactly when the running R version (major.minor.patch) satisfies that operator against that version. An entry that does not constrain the R version is always offered.",
  ["inputs", "configurations"], "all R versions and all R constraints (every operator, every version)",
  "Tests use a few operator/version combinations; the iff over all operators and component values is not enumerable.",
  ["cran/repodb.go", "desc/version.go"], [("isRVersionCompatible", "cran/repodb.go"), ("checkRVersionCompatibility", "cran/repodb.go")],
  ["packages present in the package database after reading a PACKAGES file"])
p("C03", "Dependency fields are understood faithfully",
  "Every entry of a Depends, Imports, Suggests or LinkingTo field of a DESCRIPTION becomes exactly one requirement in the corresponding dependency set, under the entry's trimmed name and with the operator (>, >=, <, <= or ==) and version written in its parentheses (none if there are no parentheses), and no requirement appears in a set whose field did not list it. The dependencies taken from a tarball or DESCRIPTION file listed in the configuration are exactly the union of its Depends (without R itself), Imports and LinkingTo sets, plus Suggests only where suggested packages were asked for.",
  ["inputs"], "all DESCRIPTION contents: any number of entries, any operator, any version",
  "Tests parse a handful of fixed strings.",
  ["desc/desc.go", "desc/structs.go"], [("ParseDep", "desc/desc.go"), ("NewDesc", "desc/desc.go"), ("GetCombinedDependencies", "desc/structs.go")],
  ["parsed package description", "the packages a tarball adds to the plan"])
p("C04", "Packages come from the first configured repository that qualifies",
  "A package lookup returns the entry of the first repository, in configuration order, that has the package under the source type in force for it (the package's own configured type if set, else the repository's default type if set, else the global default), skipping every repository other than the one the package is pinned to. The returned entry, repository and type are that match's, a package is reported missing only if no configured repository qualifies, and looking up many packages reports each exactly as looking it up alone.",
  ["configurations", "inputs"], "all repository lists, package databases, pins and type customizations",
  "Tests check two or three fixed databases; the combination of pin, per-package type and repository default is unbounded.",
  ["cran/pkg_nexus.go"], [("GetPackage", "cran/pkg_nexus.go"), ("GetPackages", "cran/pkg_nexus.go"), ("isCorrectRepo", "cran/pkg_nexus.go"), ("SetPackageRepo/SetPackageType", "cran/pkg_nexus.go")],
  ["repository, type and version reported by plan for each package"])
p("C05", "Install layers respect dependencies and cycles are rejected",
  "Whenever layering a dependency graph succeeds, every package of the graph is in exactly one layer, nothing else is, no layer is empty, and each of its dependencies that is not a base/recommended exclusion is in a strictly earlier layer. If dependencies form a cycle, or refer to a package not in the graph, layering reports an error instead of a result.",
  ["inputs"], "all dependency graphs",
  "Tests layer two or three small graphs; soundness on every graph, including every cyclic one, is a universally quantified claim over unbounded structures.",
  ["gpsr/dependencies.go"], [("ResolveLayers", "gpsr/dependencies.go")], ["layers returned for a graph", "error on circular dependencies"])
p("C06", "The dependency graph is closed under required dependencies",
  "After adding a package to the graph, the package has an entry whose dependency list holds exactly its Depends, Imports and LinkingTo packages that are enabled for it, available in some configured repository, and not excluded as base (or, when asked, recommended) packages. Every package named in any such list also has its own entry, so nothing required is left out of the plan.",
  ["inputs", "configurations"], "all package databases (including cyclic ones) and all dependency settings",
  "Tests resolve a few packages from one saved repository snapshot.",
  ["gpsr/helpers.go"], [("appendToGraph", "gpsr/helpers.go")], ["dependencies shown by plan --show-deps and inspect --deps"])
p("C07", "The install plan covers exactly the resolved packages, once each",
  "Every package resolved from the requested packages is either a starting package or has a dependency entry, never both; the starting packages are exactly those without required dependencies, and a package's dependency entry holds all of its direct and indirect required dependencies and never the package itself. The list of downloads has one entry for each of these packages, taken from the repository lookup.",
  ["inputs", "configurations"], "all requested package lists and package databases",
  "The existing tests inspect plans for a handful of packages.",
  ["gpsr/solution.go", "gpsr/dependencies.go"], [("ResolveInstallationReqs", "gpsr/solution.go"), ("Pack", "gpsr/dependencies.go")],
  ["install plan: starting packages, dependency map, downloads"])
p("C08", "Base packages are never installed; recommended ones only if allowed",
  "A package that ships with base R is never installed as a dependency and is removed from the user's list whatever its position, while every other package of that list stays, in order. A recommended package is left out as a dependency exactly when recommended packages are disabled, and a package that is neither base nor recommended is never left out for this reason.",
  ["inputs", "configurations"], "all package names, user lists and both settings of NoRecommended",
  "Tests try a few names; the claim is about every name in the tables and every list.",
  ["gpsr/helpers.go", "gpsr/pkgs.go", "cmd/plan.go"], [("isExcludedPackage", "gpsr/helpers.go"), ("DefaultPackages", "gpsr/pkgs.go"), ("removeBasePackages", "cmd/plan.go")],
  ["packages in the plan"])
p("C09", "Suggested packages are pulled in only on request",
  "A package's suggested packages enter the plan only if suggests are switched on for that package: by its own customization when it has one, otherwise by the global setting when the package was listed by the user, and otherwise not. Suggested packages are never made prerequisites of the package that suggests them.",
  ["configurations"], "all configurations of Suggests (global and per package) and all package lists",
  "Tests cover one or two yaml files.",
  ["configlib/config.go", "gpsr/helpers.go", "gpsr/install.go"], [("setCfgCustomizations", "configlib/config.go"), ("setViperCustomizations", "configlib/config.go"), ("appendToGraph", "gpsr/helpers.go")],
  ["dependency settings used for planning", "packages in the plan"])
p("C10", "Reverse dependencies are the exact inverse of dependencies",
  "A package A is listed as a dependent of B exactly when the plan lists B among A's dependencies, each list is sorted, and a package nobody depends on has no entry. Computing the reverse listing does not change the plan.",
  ["inputs"], "all dependency maps", "Tests invert one fixed map.",
  ["gpsr/dependencies.go"], [("InvertDependencies", "gpsr/dependencies.go")], ["inspect --deps --reverse output", "packages signalled ready during install"])
p("C11", "A package is outdated exactly when the repository has a newer version",
  "An installed package is reported as outdated, once per repository entry and with the installed and available version, exactly when a repository entry of the same name has a strictly greater version. Packages that are equal, newer than the repository or not installed are never reported.",
  ["inputs"], "all installed libraries and repository contents", "Tests use three fixed packages.",
  ["pacman/utils.go"], [("GetOutdatedPackages", "pacman/utils.go")], ["outdated packages reported by plan"])
p("C12", "The announced number of packages to install is right",
  "The number of packages the plan announces equals the number of required packages that are not yet installed, plus the additional tarball packages, plus (when updating) the required packages that will be updated. Packages in the library that nothing in the plan requires never change it.",
  ["inputs", "configurations"], "all plans and libraries", "Tests check single counts on fixed plans.",
  ["gpsr/dependencies.go"], [("GetNumPackagesToInstall", "gpsr/dependencies.go"), ("GetAllPackages", "gpsr/dependencies.go")], ["to_install in the plan log"])
p("C13", "A failed install rolls the library back to what it was",
  "If an installation fails and rollback is enabled, then after a successful rollback every package that was installed before is present with its previous content, every package newly added by this run is gone, packages outside the plan are untouched, no backup folder remains, and a library created by this run is removed. This holds for any set of outdated, newly installed and tarball packages, including packages that fall in two of these groups.",
  ["inputs", "fault_sequences", "histories"], "all libraries, plans, and outcomes of individual installs",
  "Tests roll back libraries with one or two packages and no overlap between groups.",
  ["rollback/operations.go", "rollback/types.go", "cmd/install.go"], [("RollbackPackageEnvironment", "rollback/operations.go"), ("PreparePackagesForUpdate", "rollback/types.go"), ("PrepareAdditionalPackagesForOverwrite", "rollback/types.go")],
  ["content of the library directory after a failed install"])
p("C14", "Updating touches only packages of the plan",
  "Preparing an install moves aside exactly the installed packages that will be replaced: the outdated ones required by the plan, and installed packages overridden by a tarball; each is moved to its own backup folder next to it. Every other folder of the library is left alone, and the final clean-up deletes only those backup folders.",
  ["inputs"], "all libraries and plans", "Tests use small fixed libraries.",
  ["rollback/types.go", "rollback/operations.go"], [("PreparePackagesForUpdate", "rollback/types.go"), ("createUpdateBackupFolders", "rollback/operations.go"), ("DeleteBackupPackageFolders", "rollback/operations.go"), ("discernNewPackages", "rollback/types.go")],
  ["folders renamed or removed in the library"])
p("C15", "Packages are installed once, after their dependencies, and runs end",
  "During an install a package is started only after all of its dependencies in the plan have been installed successfully, at most once, and no further package is queued for installation once a failure has been recorded. Whatever the order in which installs finish or fail, the run ends, it reports an error exactly when some package failed, and a run without failures has installed every package of the plan.",
  ["schedules", "inputs", "fault_sequences"], "all plans, all completion orders and outcomes of workers",
  "Tests run no concurrent schedule deliberately; a lost wake-up or double start appears only under particular orders.",
  ["rcmd/install.go", "rcmd/worker.go"], [("InstallPackagePlan", "rcmd/install.go"), ("update callback", "rcmd/install.go"), ("request consumer", "rcmd/install.go")],
  ["order of install starts", "return of the install phase"])
p("C16", "A package that failed to install is never reported as installed",
  "If R cannot be started, exits with a non-zero status, the package file is missing or no binary is produced, the installation of that package is reported as failed. A package is reported as installed only if R ran and exited with status zero, or the package was already present in the target library.",
  ["fault_sequences", "inputs"], "all outcomes of the external R process and the file system",
  "Tests do not inject failures of the R process or of the files it needs.",
  ["rcmd/install.go", "rcmd/worker.go", "cmd/install.go"], [("Install", "rcmd/install.go"), ("InstallThroughBinary", "rcmd/install.go"), ("Worker.Start", "rcmd/worker.go"), ("installAdditionalPackages", "cmd/install.go")],
  ["success or failure reported for a package"])
p("C17", "A cached download is reused only for the same package and origin",
  "A downloaded or locally built package file is stored under a path determined by repository (name and address), source or binary kind with R version for binaries, package name and version, and it is looked up under the same path it was stored at. Requests that differ in repository, kind, package or version never share a file.",
  ["inputs", "configurations"], "all repositories, packages, versions and types", "Tests download one package.",
  ["cran/download-package.go", "cran/utils.go", "rcmd/install.go"], [("DownloadPackages", "cran/download-package.go"), ("RepoURLHash", "cran/utils.go"), ("isInCache", "rcmd/install.go")],
  ["paths in the package cache"])
p("C18", "TLS verification is skipped only when the user asked for it",
  "Every HTTPS request for package lists or packages verifies the server certificate unless the configuration explicitly disables it, and it is disabled when the configuration says so. A package is recorded as downloaded only if the server or file system delivered it successfully.",
  ["configurations", "fault_sequences"], "all configurations and all server responses", "Tests do not talk to TLS servers.",
  ["cran/download-package.go", "cran/repodb.go"], [("DownloadPackage", "cran/download-package.go"), ("FetchPackages", "cran/repodb.go")],
  ["TLS configuration of outgoing requests", "download results"])
p("C19", "Unpacking a tarball never writes outside its directory",
  "Whatever the archive contains (absolute paths, parent references, symbolic links, devices), extraction creates files and folders only beneath the target directory, and reports an error for any entry it cannot place there. Only regular files and directories are ever created.",
  ["inputs"], "all archives", "Tests try a few malicious entries.",
  ["internal/archive/extract.go"], [("extractFile", "internal/archive/extract.go"), ("Extract", "internal/archive/extract.go")],
  ["files created during extraction"])
p("C20", "Adding packages edits only the Packages list of the configuration",
  "Adding packages to a configuration inserts exactly one list item for each named package that is not yet listed, below the existing Packages key (or a new one when there is none), indented like the existing items. Every other line is kept, in order and unchanged, and packages already listed are not added again.",
  ["inputs"], "all configuration files and argument lists", "Tests use a few layouts.",
  ["configlib/add_package.go"], [("insertPackages", "configlib/add_package.go"), ("AddPackages", "configlib/add_package.go")],
  ["configuration file after pkgr add"])
p("C21", "Removing a package deletes only that package's entry",
  "Removing a package from a configuration deletes the lines that list exactly that package in the Packages section, and every other line of the file, including packages whose name merely starts with the same letters and entries of other sections, is kept in order and byte for byte.",
  ["inputs"], "all configuration files and package names", "Tests remove one package from a small file.",
  ["configlib/config.go"], [("remove", "configlib/config.go")], ["configuration file after pkgr remove"])
p("C22", "The DESCRIPTION stamp records the origin and keeps the rest",
  "After stamping, the DESCRIPTION ends with the pkgr version, install type and repository address of this install, each stated exactly once, whatever stamps it had before. Every other line is kept in order; if the repository recorded by the author differs, the Repository line names the actual repository and the former value is kept as the original repository.",
  ["inputs"], "all DESCRIPTION files and stamp values", "Tests stamp a few small files.",
  ["rcmd/install.go"], [("updateDescriptionInfoByLines", "rcmd/install.go")], ["DESCRIPTION of an installed package"])
p("C23", "R runs with the configured environment only where it should",
  "The environment handed to R has exactly one value per variable: a package's own setting wins over the inherited one, the user library variable always points to a fresh empty folder and never to an inherited value, and the site library variable is the configured library path whatever characters it contains, never an inherited one. Inherited access tokens known to be secret are not passed on in clear.",
  ["configurations", "inputs"], "all inherited environments, package settings and library paths", "Tests use small fixed environments.",
  ["rcmd/configure.go", "rcmd/nvp.go", "rcmd/Rsettings.go"], [("configureEnv", "rcmd/configure.go"), ("NvpList", "rcmd/nvp.go"), ("LibPathsEnv", "rcmd/Rsettings.go")],
  ["environment of the R process"])
p("C24", "The number of parallel workers follows the configuration",
  "The number of install workers is the configured thread count when that is at least one, and otherwise the number of available processors but never more than eight. It is always at least one when a processor is available.",
  ["configurations", "inputs"], "all thread settings and processor counts", "Tests check single values.",
  ["cmd/utils.go"], [("getWorkerCount", "cmd/utils.go")], ["number of workers announced and used"])
p("C25", "Cleaning the cache removes only what was asked for",
  "Cleaning the cache removes, inside the cache directory in force, only the source and/or binary folders (per the flags) of the named repositories (or all when none is named), folders of these repositories that are empty afterwards, and unpacked copies of the configured tarballs. A repository that was not named, a kind that was not selected, and anything outside the cache directory is never removed.",
  ["inputs", "configurations"], "all cache contents, repository lists and flags", "Tests use one cache layout.",
  ["cmd/cleanCache.go"], [("deleteCacheSubfolders", "cmd/cleanCache.go"), ("cleanCacheFolders", "cmd/cleanCache.go")], ["paths removed from the cache"])
p("C26", "The load report tells exactly which packages loaded",
  "The report holds each package's own result unaltered, including failure text, and the failure count equals the number of distinct reported packages that did not load. A package is marked as loaded exactly when the R process that loaded it exited successfully.",
  ["inputs", "fault_sequences"], "all sequences of results", "Tests build one or two reports.",
  ["cmd/structs.go", "cmd/load.go"], [("AddResult", "cmd/structs.go"), ("MakeLoadResult", "cmd/structs.go"), ("attemptLoad", "cmd/load.go")], ["pkgr load --json output"])
p("C28", "Repository failures are reported, never turned into an empty repository",
  "If the package list of a repository cannot be obtained for even one of its source types (a repository may offer only source or only binary packages), building the package database reports an error and nothing is stored in the database cache for it. A repository keeps its configured position in the database whatever order the downloads finish in.",
  ["fault_sequences", "schedules", "configurations"], "all response outcomes per repository and type, all completion orders", "Tests do not inject network failures.",
  ["cran/repodb.go", "cran/pkg_nexus.go"], [("FetchPackages", "cran/repodb.go"), ("NewPkgDb", "cran/pkg_nexus.go")], ["error of the planning phase", "files in the database cache"])
p("C30", "Customizations reach the package or repository they name",
  "Looking up the customization of a package or repository returns the first entry with exactly that name, and reports absence exactly when there is none. Environment customizations are applied to exactly the packages that declare one, leaving all other packages' settings as they were.",
  ["configurations"], "all customization lists", "Tests use one configuration.",
  ["configlib/get_customization.go", "configlib/config.go"], [("GetRepoCustomizationByName", "configlib/get_customization.go"), ("GetPackageCustomizationByName", "configlib/get_customization.go"), ("SetCustomizations", "configlib/config.go")],
  ["settings used for a package or repository"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

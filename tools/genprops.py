#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to maintain)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R = "pkg/apk/repo.go"; V = "pkg/apk/version.go"; I = "pkg/apk/implementation.go"

prop("V01", "Package version comparison is a total order with the documented precedence",
  "Every string of the package version grammar (numbers below 2^63) parses, and comparing two versions yields a total order (reflexive, antisymmetric, transitive, total) that depends only on the values. The order is lexicographic over: numeric components (more components win when all shared ones are equal), letter, pre-release suffix (alpha < beta < pre < rc < none) with its number, post-release suffix (none < cvs < svn < git < hg < p) with its number, then -r revision. A string outside the grammar is rejected with an error rather than given some order.",
  ["inputs"], "all versions built from a value alphabet per component (numbers, letters, suffixes, suffix numbers, revisions incl. multi-digit values) and all pairs/triples of them; all short strings over the version character set for the grammar",
  "The version tests compare a fixed list of pairs; a total order is a statement about all pairs and triples.",
  [V], [("ParseVersion / CompareVersions", V)], ["result of comparing two parsed versions"])

prop("V02", "Version constraints select exactly the packages whose version satisfies them",
  "For a request 'name', 'name=v', 'name<v', 'name<=v', 'name>v', 'name>=v' or 'name~v', the candidates returned are exactly the indexed packages of that name whose version stands in that relation to v in the version order, where '~v' means v's components are a prefix of the version's. A package that provides 'name=w' is a candidate exactly when w stands in the relation. Exclusions given by the caller are never returned.",
  ["inputs"], "all (operator, required version, indexed version set) over the version alphabet, real packages and versioned/unversioned provides",
  "Tests exercise a handful of operator/version pairs on one index; the claim is for every pair.",
  [V, R], [("filtering of candidates", V), ("constraint parsing", V)], ["list of candidates"])

prop("R01", "A resolved package set satisfies every requirement and contains no conflict",
  "When resolving a world succeeds, every requested constraint and every dependency of every selected package is satisfied by the selected set (by a selected package of that name with a matching version or by a selected package that provides it), and no selected package is ruled out by a '!' constraint of the world; conflicts ('!' dependencies) declared by selected packages are respected or reported in the returned conflict list. At most one version of each package name is selected, and no two selected packages provide the same name in different versions. Every selected package comes from the given indexes and nothing is selected that neither the request, a selected package's dependency, nor a fully met install_if calls for.",
  ["inputs", "configurations"], "all package universes over a small alphabet of names, versions, dependencies, provides, install_if and conflicts, and all small worlds over them",
  "Unit tests resolve a few recorded indexes; soundness is a statement about every universe and world.",
  [R, V], [("GetPackagesWithDependencies", R), ("constrain/disqualify", R), ("getPackageDependencies", R)], ["returned install list", "returned error"])

prop("R02", "Resolution of a given world and indexes always gives the same answer",
  "Resolving the same constraints against the same indexes yields the same outcome every time: the same packages in the same order, the same conflicts, and success or failure alike, regardless of in-memory map iteration order, of what was resolved before with the same resolver, or of the requester's process. Resolution does not modify the indexes or the request it is given.",
  ["schedules", "inputs"], "all map-iteration orders (bounded number of deviations) of the resolver on all universes of a small alphabet; repeated and interleaved resolutions on one resolver",
  "Go's map order is random per run: a test that passes once or a thousand times has sampled a few orders.",
  [R], [("tie breaks in comparePackages and getPackageDependencies", R)], ["returned install list and conflicts"],
  hook="check-time rewriting of map iteration in an overlay copy (no change to /repo)")

prop("R03", "The install list names each package once, dependencies before dependents",
  "In the list a successful resolution returns, each package appears exactly once, and every package comes after the packages selected to satisfy its dependencies, unless the two are on a dependency cycle. All requested packages are in the list.",
  ["inputs"], "all dependency graphs (chains, diamonds, cycles, provides) over up to 4 packages and all worlds",
  "Tests check the order for a few hand-written graphs.",
  [R], [("depth-first traversal with parents set", R)], ["order of the returned install list"])

prop("R04", "Candidates are ranked by pin, provider priority, version, then name",
  "When several packages satisfy a request, the one chosen and the order of the candidate list follow the documented preference: a package from the pinned repository first, then the higher provider priority, then the higher version of what was asked for, then the higher package version, then name (for a dependency, packages already selected and then those whose origin is already selected come first of all); the list is in descending order of that preference. The choice does not depend on the order in which indexes list the packages, except between entries equal in all of these.",
  ["inputs"], "all subsets (and all orders) of a candidate pool varying pin, priority, version, provided version and name",
  "Tests compare a few two-element cases; a ranking is a statement about all sets and permutations.",
  [R], [("comparePackages", R)], ["candidate list", "selected package"])

prop("R05", "Packages of tagged repositories are used only when their tag is requested",
  "A package that exists only in a repository with a tag is never selected for a request, or a dependency, that does not carry that tag; a request 'name@tag' for a package that no other selected package depends on selects from the tagged repository in preference to a higher version elsewhere, and a dependency is taken from an untagged repository when one satisfies it.",
  ["inputs", "configurations"], "all placements of up to 3 packages x versions over one untagged and two tagged repositories and all worlds with and without tags",
  "Tests cover one pin configuration.",
  [R, V], [("pin filtering", V), ("pin preference", R)], ["repository each selected package came from"])

prop("R06", "A world with only one possible answer is resolved to that answer",
  "When at every step of following a world's requests and the dependencies of what they select only one candidate is left (of the packages that satisfy the request and that no constraint of the world, of the packages that led there, or conflict of name with these and the requested packages excludes), and the packages so reached are a solution, then resolving the world succeeds and returns exactly these packages. Failing on such a world, or adding a package to it, is wrong. A package's own conflicts ('!') do not exclude the package itself, and what it provides satisfies its own dependencies.",
  ["inputs"], "all universes of the families (version constraints, provided names, deeper graphs, mixtures, sibling and negative constraints) of up to 7 entries and all their worlds of up to three requests",
  "Tests only resolve worlds that work; a resolver that disqualifies too much fails on universes no test contains.",
  [R], [("constrain / disqualifyProviders / disqualifyConflicts", R), ("nextPackage", R), ("getPackageDependencies", R)], ["returned install list", "returned error"])

prop("R07", "A package with install_if is added exactly when its conditions are met",
  "A package that nothing requires is in the answer of a resolution only if every condition of its install_if is met by packages in the answer. A package all of whose install_if conditions (a name, or a name with a version constraint) are met by the dependencies of one requested package, including packages so added, is in the answer too, with its dependencies, unless a constraint or conflict around it rules it out or another package of its name has been chosen. Which packages are added does not depend on the order in which the index lists them.",
  ["inputs"], "all universes of a small dependency graph, two versions of a package and up to three packages with install_if over names, exact versions and ranges, and all worlds over them",
  "Tests have one install_if example; whether a condition is noticed depends on which other conditions exist.",
  [R], [("install_if handling in GetPackageWithDependencies", R), ("install_if index in NewPkgResolver", R)], ["returned install list"])

prop("I01", "A repository index is used only if a trusted key signed exactly its content",
  "When signatures are required, a repository index is accepted only if its signature section carries a signature, made with one of the caller's trusted keys, over exactly the bytes all package entries are read from; any other archive (tampered, truncated, reordered, re-signed with another key, extended, unsigned) is an error and none of its entries are used. A properly signed index is always accepted. Whether an index is accepted depends only on its bytes, the trusted keys and the signature policy of the request, never on earlier requests made with other keys or policy.",
  ["inputs", "histories"], "all single-byte flips/truncations of the archive (strided in quick), all segment-level forgeries built from a valid archive, all key sets, and all request histories with differing policies",
  "Tests check one good and a couple of bad archives; authenticity is a claim about every byte string and every request history.",
  ["pkg/apk/index.go", "pkg/signature/rsa.go", "pkg/signature/sign.go"], [("signature verification in index loading", "pkg/apk/index.go"), ("index signing", "pkg/signature/sign.go"), ("process-wide index cache", "pkg/apk/index.go")], ["packages returned by the index loader", "error"])

prop("I02", "An index archive round-trips every package field",
  "Writing packages into an index archive and reading it back yields the same packages in the same order with every field preserved: name, version, architecture, description, license, origin, maintainer, URL, checksum, dependencies, provides, install_if, sizes, provider priority, build date and repository commit, and the index description. Reading an index never merges, drops or duplicates entries, and malformed numeric or checksum fields are reported as errors.",
  ["inputs"], "all combinations of boundary values per field (empty, one, several elements, zero and maximal numbers), 0-3 packages, long lines, entries with and without trailing blank line",
  "Tests round-trip one example index.",
  ["pkg/apk/apkindex.go"], [("archive writer template and line parser", "pkg/apk/apkindex.go")], ["parsed packages"])

prop("I03", "A local index is re-read when it changes and each loader sees current data",
  "Loading the index of a local repository returns the content the file has now whenever its modification time is newer than that of the last load, and a remote index is fetched once per process however many loaders with the same keys and signature policy ask, concurrently or in sequence, each getting the same complete result. Repositories are returned one index per configured line, in order, named by their tag, and an index that fails to load makes the whole load fail instead of being silently left out (only a local repository without an index file is skipped).",
  ["histories", "schedules"], "all histories of writes (same/newer mtime), loads by differing clients, and failing/succeeding servers up to a depth",
  "Tests load one index once; freshness is about histories.",
  ["pkg/apk/index.go"], [("indexCache", "pkg/apk/index.go")], ["packages of the returned indexes", "HTTP requests"])

prop("P01", "Package metadata is read exactly as the package states it",
  "For every package file, parsing it yields for each metadata key (name, version, architecture, description, license, origin, maintainer, url, commit, datahash, sizes, build date, provider priority) exactly the text or number after the '=' of its line, and for each list key (depend, provides, replaces) exactly its values in order, whatever characters they contain and whatever comments or foreign keys surround them; a malformed number is an error. The checksum and size are those of the file. Installing the package records the same values.",
  ["inputs"], "all fields x an alphabet of awkward values, all lists up to length 3, all placements of comments and foreign keys, well- and ill-formed numbers",
  "Tests parse three recorded packages with harmless values.",
  ["pkg/apk/package.go", I], [("ParsePackage", "pkg/apk/package.go"), ("packageInfo", I)], ["parsed package", "installed database"])

prop("N01", "The installed tree equals the ordered overlay of the packages, or it is an error",
  "After installing packages the filesystem holds, for every entry of every package, the type, mode, content, link target and extended attributes that entry has, where a regular file shipped by several packages has the content of the one that wins by the documented rule: identical content stays as first installed, the package that replaces the other wins, within one origin the later one wins. Any other overlap with differing content makes the installation fail naming the path, and nothing outside the packages' entries and the package database is created, changed or removed.",
  ["inputs", "histories"], "all ordered pairs/triples of small packages over a path alphabet, entry kinds, contents, origins and replaces relations, on the in-memory and the on-disk filesystem",
  "Tests cover one overlap per rule; the merge rule is a claim about every sequence of packages.",
  ["pkg/apk/install.go", I], [("installRegularFile overwrite rules", "pkg/apk/install.go"), ("InstallPackages", I)], ["filesystem tree after installation", "error"])

prop("N02", "The installed database records exactly what was installed and reads back",
  "After an installation the installed database lists each package once, in installation order, with its metadata fields as in the package, every directory, file and link it owns with owner, permissions and checksum, and no regular file that another package of the same call overwrote; parsing it yields the same packages and files that were recorded, for any number and size of entries. Whether a package is installed is decided by exact name; installing an already installed package changes nothing.",
  ["inputs", "histories"], "all small file trees (root-level files, nested and missing parent directories, modes, owners), metadata field values, large records, and all short add/read histories",
  "Tests parse one recorded database and check selected fields.",
  ["pkg/apk/installed.go", "pkg/apk/package.go"], [("AddInstalledPackage / ParseInstalled / sortTarHeaders", "pkg/apk/installed.go"), ("PackageToInstalled", "pkg/apk/package.go")], ["bytes of the installed database", "parsed packages"])

prop("N03", "Parallel installation gives the sequential result, terminates, and fails cleanly",
  "Installing several packages concurrently yields, for every timing of downloads and every goroutine schedule, the same filesystem, installed database, scripts and triggers as installing them one by one in the given order, and always terminates. If any package cannot be fetched, expanded or installed the call returns an error and the installed database does not gain any record. Calculating a world of packages concurrently likewise gives, in order, the result for each of them, or an error.",
  ["schedules", "fault_sequences"], "all goroutine interleavings up to a preemption bound and all subsets/points of failing downloads for up to 4 packages, and cancellation at any point",
  "Tests run one schedule per run, with no failures injected.",
  [I], [("done channels and errgroup in InstallPackages", I)], ["filesystem, database", "error", "termination"],
  hook="check-time rewriting of synchronisation in an overlay copy (no change to /repo)")

prop("X01", "A failing disk or filesystem operation is reported or has no effect",
  "When any operation of the disk (package cache, temporary files, on-disk filesystem) or of the filesystem that is worked on fails (an I/O error, a full disk cutting a write short, a failing close) while installing packages, describing or fixing a world, loading indexes, keys or release lists, initialising, writing lists, databases or user and group files, expanding or viewing packages, or writing archives, the call returns an error or has exactly the result it has without the failure; it never panics, hangs, or reports success with missing, short or altered data. A failed installation adds no installed record, and what it leaves in the cache never makes a later use, online or offline, fail or give anything wrong. Documented as optional, so exempt: names of users and groups and extended attributes in archives, and modes, owners, device files and attributes on the disk, which the on-disk filesystem keeps in memory.",
  ["crash_points", "fault_sequences"], "every single failing operation (thorough: every pair) of the disk and of the given filesystem, and every size at which the disk is full, for each of some 70 uses of the library over every state of the cache",
  "Tests run on a disk that works.",
  [I, "pkg/apk/install.go", "pkg/apk/installed.go", "pkg/apk/cache.go", "pkg/expandapk/expandapk.go", "pkg/fs/rwosfs.go", "pkg/tarball/write.go"], [("installPackage / writeOneFile", "pkg/apk/install.go"), ("AddInstalledPackage", "pkg/apk/installed.go"), ("DirFS", "pkg/fs/rwosfs.go"), ("writeTar", "pkg/tarball/write.go")], ["error", "filesystem", "databases", "cache in later uses"],
  hook="check-time rewriting of file operations in an overlay copy (no change to /repo)")

prop("N04", "Install scripts and triggers of every package are recorded exactly once",
  "After installation the scripts archive is one valid archive holding, for each installed package in order, every control file other than the package metadata under the name '<name>-<version>.Q1<checksum><script>' with unchanged content and mode (and the source-date timestamp when one is given); the triggers file holds one line '<base64 checksum> <paths>' for each trigger line of each package, in order. Nothing recorded earlier is lost or altered.",
  ["inputs", "histories"], "all sequences of up to 3 packages over subsets of scripts (empty, small, block-aligned sizes) and trigger lines, with and without a source date",
  "Tests add one package to a recorded archive.",
  ["pkg/apk/installed.go"], [("updateScriptsTar", "pkg/apk/installed.go"), ("updateTriggers", "pkg/apk/installed.go")], ["scripts archive", "triggers file"])

prop("E01", "Splitting a package archive yields its exact sections or an error",
  "Expanding a package stream yields the exact bytes of its signature (if signed), control and data sections, with matching hashes and sizes, the decompressed data, and indexes of both that agree with the archive, whatever the chunking of the stream and the compression structure of the data section. A stream that is truncated, corrupted, or lacks a section yields an error, never a partial package, and leaves no temporary files behind.",
  ["inputs", "fault_sequences"], "all truncation points, all byte corruptions (strided in quick), read chunkings and injected read errors over a family of signed/unsigned, single/multi-member packages",
  "Tests expand a couple of good files; the claim is about every prefix, chunking and corruption.",
  ["pkg/expandapk/expandapk.go", "pkg/expandapk/utility.go"], [("ExpandApk / Split", "pkg/expandapk/expandapk.go")], ["section files, hashes, sizes, file listing", "error", "temporary directory"])

prop("E02", "The section ranges of a resolved package match the package stream",
  "Resolving a package stream without expanding it reports signature and control sizes and hashes equal to those of the actual sections in the stream, and the data size and hash the control section declares, for signed and unsigned packages and for any chunking; a stream that ends, breaks or is damaged before its data section, or whose control section lacks or repeats these declarations, yields an error.",
  ["inputs"], "the same package family, truncations and chunkings as for expansion, compared with the section boundaries of the constructed package",
  "There is a single test on one signed package.",
  ["pkg/apk/resolveapk.go"], [("ResolveApk", "pkg/apk/resolveapk.go")], ["returned sizes and hashes"])

prop("E03", "Only the package content the signed index vouches for is ever installed",
  "A package taken from a repository is installed only if its control section hashes to the checksum the index gives for it and its data section hashes to the hash the control section gives for it (when it gives one); anything else is an error and changes nothing in the root filesystem or database. This holds whether the package comes from the network, a local file or the package cache, and for every later user of that cache.",
  ["inputs", "histories"], "all substitutions of (signature, control, data) sections between valid packages, damaged sections, and all orders of using them with and without a shared cache",
  "No test presents a package that differs from its index entry.",
  [I, "pkg/expandapk/expandapk.go"], [("package fetch and expansion", I), ("cached package lookup", I)], ["error", "installed tree"])

prop("C01", "A crash at any point leaves a package cache that later runs can rely on",
  "If the process dies at any point while filling the package or index cache, later installations and index loads using that cache directory give the same result as with an empty cache: no partial or mixed content is ever served, and no leftover makes them fail.",
  ["crash_points", "histories"], "every prefix of the sequence of file operations of caching a package or response, with every torn prefix (block granularity) of files being written, followed by online and offline reuse",
  "Tests never interrupt a cache fill.",
  ["pkg/apk/cache.go", I, "pkg/expandapk/expandapk.go"], [("temporary files and renames", "pkg/apk/cache.go"), ("cachePackage", I)], ["result of a later installation or index load"],
  hook="check-time rewriting of os calls in an overlay copy (no change to /repo)")

prop("C02", "Caching never changes what is downloaded, only whether it is downloaded",
  "With a cache, every response body a client reads equals the body the server currently serves for the URL (validated by entity tag) or the one installed earlier under that same tag, for every history of content changes, tag changes (any legal tag syntax), missing tags and server errors; within one process a resource is validated once. Responses for different URLs (differing in more than the query or the spelling of an escape) never mix. Nothing is written outside the cache directory.",
  ["histories", "inputs"], "all histories of publish/fetch/new-process/fault events up to a depth over two URLs and an entity tag alphabet",
  "Tests cover one hit and one miss.",
  ["pkg/apk/cache.go"], [("etag-named entries", "pkg/apk/cache.go")], ["response bodies", "requests at the server", "cache directory"])

prop("C03", "Offline mode never touches the network and serves only complete entries",
  "With an offline cache no request reaches the network; a URL cached completely before is served with exactly the most recently cached complete body, and a URL that is not cached is an error, whatever leftover partial files the cache directory holds.",
  ["histories", "crash_points"], "all histories of online fills (complete, interrupted, failed) followed by offline reads",
  "Tests read one cached entry offline.",
  ["pkg/apk/cache.go"], [("offline branch of the cache transport", "pkg/apk/cache.go")], ["response body or error", "network requests"])

prop("C04", "Concurrent users of one cache all get complete, correct results",
  "When several goroutines and several processes use one cache directory at the same time, each of them gets the complete correct content for every schedule; within one process a cached resource is fetched once, and no schedule deadlocks or fails because another user is working on the same entry.",
  ["schedules"], "all interleavings at file-operation and synchronisation granularity (bounded preemptions) of 2-3 threads in one or two processes on colliding entries",
  "Tests run a few goroutines under the default scheduler.",
  ["pkg/apk/cache.go", I, "pkg/apk/index.go"], [("once-per-URL caches", "pkg/apk/cache.go"), ("atomic renames", "pkg/apk/cache.go")], ["content returned to each caller", "requests at the server"],
  hook="check-time rewriting of os calls and synchronisation in an overlay copy (no change to /repo)")

prop("H01", "An interrupted download yields the exact bytes or an error, never a wrong body",
  "A package download whose connection breaks, any number of times and at any byte, delivers exactly the bytes of the resource in order, each exactly once, or ends in an error; it never ends successfully with missing, repeated or foreign bytes, whatever mix of full, partial, wrong-range and error answers the server gives on retry, and it terminates. A break that is followed by a correct full or partial answer does not fail the download.",
  ["fault_sequences"], "all sequences of break points and server answers up to a depth, for all read-buffer sizes, over a small body",
  "Tests inject one failure pattern.",
  ["pkg/apk/transport.go"], [("range retry reader", "pkg/apk/transport.go")], ["bytes read and final error", "requests at the server"])

prop("F01", "The in-memory filesystem behaves like a POSIX directory tree",
  "For every sequence of operations (create, write, mkdir, symlink, hard link, remove, chmod, chown, xattrs, stat, read) the in-memory filesystem succeeds or fails and shows the same tree, contents, link targets, modes and owners as a reference directory tree with POSIX semantics, and a failed operation changes nothing.",
  ["histories"], "all operation sequences up to a depth over a small path alphabet incl. symlinks, nested dirs and odd spellings of the same path",
  "Tests run scripted sequences.",
  ["pkg/fs/memfs.go"], [("memFS", "pkg/fs/memfs.go")], ["results of every operation and full tree dump"])

prop("F02", "The on-disk filesystem view and the disk agree with the in-memory one",
  "For every operation sequence the disk-backed filesystem reports the same results and tree as the in-memory filesystem, the underlying directory holds the same names and contents, and reopening the directory shows the same names, types, contents and link targets (and modes, as far as the disk holds them); on a case-insensitive disk files whose names differ only in case stay distinct.",
  ["histories"], "all operation sequences up to a depth, checking disk and view after each; reopen at the end",
  "Tests run scripted sequences on one of the two.",
  ["pkg/fs/rwosfs.go", "pkg/fs/memfs.go"], [("dirFS overlay of memFS and disk", "pkg/fs/rwosfs.go")], ["results of every operation, dump of view and disk"])

prop("F03", "No operation on a disk-backed filesystem reaches outside its base directory",
  "Whatever paths (with '..', absolute, odd spellings) and whatever symlinks inside the base directory are involved, no operation of the disk-backed filesystem reads, creates, changes or removes anything outside the base directory.",
  ["inputs", "histories"], "all operations on all paths of an adversarial path alphabet, after all short histories that plant symlinks",
  "One test tries one escaping path.",
  ["pkg/fs/rwosfs.go"], [("path sanitizing", "pkg/fs/rwosfs.go")], ["state of a sentinel tree around the base directory", "operation results"])

prop("F04", "File handles follow POSIX read, write, seek and append semantics",
  "For every open mode and every sequence of reads, writes, seeks and positioned reads on a handle, the in-memory file returns the counts, data, end-of-file indications and errors, and leaves the content and size, that a regular file would.",
  ["histories"], "all sequences up to a depth of read/write/seek/read-at/stat/close over all open-flag combinations and two handles on one file, compared with a real file",
  "Tests read back what they wrote.",
  ["pkg/fs/memfs.go"], [("memFile", "pkg/fs/memfs.go")], ["results of each call and final content"])

prop("F05", "Concurrent filesystem operations are linearizable and lose nothing",
  "When several goroutines operate on one in-memory filesystem, its open files included, or on the tree of one on-disk filesystem, every call takes effect atomically: results and final tree equal those of some sequential order of the calls, for every schedule, and none deadlocks or races.",
  ["schedules"], "all interleavings (bounded preemptions) of 2-3 threads with 1-2 operations each on colliding paths, checked against all sequential orders",
  "Tests do not use the filesystem concurrently.",
  ["pkg/fs/memfs.go", "pkg/fs/rwosfs.go"], [("lock of the filesystem", "pkg/fs/memfs.go")], ["results of calls, final tree"],
  hook="check-time rewriting of synchronisation in an overlay copy (no change to /repo)")

prop("A01", "A package viewed as a filesystem shows exactly the package's entries",
  "Opening a package file as a read-only filesystem shows, for the data or the control section, exactly the entries of that section: each is found by its path with its type, mode, size, content and link target, each directory lists exactly its children once, and anything else does not exist.",
  ["inputs"], "all small trees (nested directories, one-letter names, empty dirs, links, prefix-sharing names) in all orders, through every view of the package",
  "Tests open one recorded package.",
  ["pkg/fs/apkfs.go", "internal/tarfs/tarfs.go"], [("APKFS", "pkg/fs/apkfs.go"), ("tarfs", "internal/tarfs/tarfs.go")], ["Open/Stat/ReadDir/Read results"])

prop("T01", "A tarball of a filesystem holds exactly its tree, once, parents first",
  "Writing a filesystem to a tar archive yields each path of the tree exactly once with its type, content, mode, owner, link target, device numbers and extended attributes, directories before their content, hard links recorded after their target; overrides, ownership remaps and the fixed timestamp apply to every entry exactly as configured.",
  ["inputs", "configurations"], "all small trees over a node alphabet and all option combinations",
  "Tests write two or three trees.",
  ["pkg/tarball/write.go", "pkg/tarball/tarball.go"], [("tarball context writer", "pkg/tarball/write.go")], ["decoded archive"])

prop("T02", "Output archives are byte-for-byte reproducible",
  "For a fixed source date, equal inputs give byte-identical outputs: filesystem tarballs and compressed archives, scripts archive, installed database and index archives, independent of wall-clock time, map iteration order, creation order of files and the process.",
  ["schedules", "inputs"], "all map-iteration orders (bounded deviations) and all creation orders of small trees and package sets, at different wall-clock times",
  "A test can compare two runs; map order and creation order need exploring.",
  ["pkg/tarball/write.go", "pkg/signature/sign.go", "pkg/apk/installed.go", "pkg/apk/apkindex.go"], [("sorted walks, fixed timestamps", "pkg/tarball/write.go")], ["output bytes"],
  hook="check-time rewriting of map iteration in an overlay copy (no change to /repo)")

prop("W01", "User and group files survive a read-modify-write cycle unchanged",
  "Parsing a passwd or group file and writing it back preserves every entry and field in order; a line that does not have the right fields or whose numeric ids are not valid 32-bit unsigned numbers is rejected with an error, never read as some other user or group. Writing to a path creates or fully replaces the file.",
  ["inputs"], "all files of up to 3 lines over a field-value alphabet incl. boundary and malformed ids, member lists, comments/blank lines",
  "Tests parse a fixed file.",
  ["pkg/passwd/passwd.go", "pkg/passwd/group.go"], [("line parser and writer", "pkg/passwd/passwd.go")], ["entries and bytes written"])

prop("K01", "Only successfully fetched keys enter the keyring, each under its own name",
  "Initialising the keyring stores every requested key, local or remote, under its base name in the keys directory with exactly its bytes, and any key that cannot be read or is answered with an error status makes the call fail instead of storing something else. Keys discovered from a distribution's release list are exactly those valid now for the architecture and the requested releases, and are never written outside the keys directory.",
  ["inputs", "fault_sequences"], "all small key lists over local/remote/failing sources, and all release lists over branches, architectures, validity windows and hostile key names",
  "Tests fetch good keys.",
  [I, "pkg/apk/releases.go"], [("InitKeyring", I), ("fetchAlpineKeys", I), ("KeysFor", "pkg/apk/releases.go")], ["content of the keys directory", "error"])

prop("D01", "Initialising a database creates exactly the announced files, idempotently",
  "Initialising the package database on a root leaves it with every base directory and exactly the announced directories, files and devices, created with the announced modes, and an architecture file, whatever subset already exists (existing directories and files keep their mode); an existing object of the wrong kind, or a base directory with other permissions, is an error. The list of files announced by the library is what initialisation creates.",
  ["inputs", "configurations"], "all subsets of pre-existing objects (as right kind, wrong kind, wrong mode), architectures and device-creation failures",
  "Tests initialise one empty root.",
  [I], [("InitDB / ListInitFiles", I)], ["tree after initialisation"])

prop("S01", "World and repository lists read back exactly as they were set",
  "Setting the world or the repositories and reading them back yields the same list in the documented order, for any previous content of the files, and what is set is what resolution uses; invalid settings are errors and leave the files unchanged.",
  ["histories", "inputs"], "all sequences of set/get/resolve up to a depth over a list alphabet (lengths shrinking and growing, duplicates, tags, constraints)",
  "Tests set and read one list.",
  ["pkg/apk/world.go", R], [("SetWorld/GetWorld", "pkg/apk/world.go"), ("SetRepositories/GetRepositories", R)], ["lists read back", "files"])

prop("U01", "Credentials go only to the host they are configured for and never leak",
  "Basic-auth credentials configured for a host are sent with every index, key and package request to that host and with no request to any other host (including hosts that merely share a prefix or suffix and redirect targets outside the host's own domain); credentials embedded in a repository URL are sent only to that URL's host. No error message, and no recorded source of an index or package, contains a password.",
  ["inputs", "configurations", "fault_sequences"], "all combinations of host configurations, URL forms, request kinds, redirects and failures",
  "Tests check one happy case per request kind.",
  [I, "pkg/apk/index.go", "pkg/apk/options.go"], [("auth by host", I), ("URL redaction", "pkg/apk/index.go")], ["Authorization headers at a recording transport", "error texts"])

prop("G01", "Signing an index makes it trusted, keeps its content and never loses it",
  "After signing an index succeeds, a root that trusts the signing key accepts the index, one that does not refuses it, and the index has the same content as before; an index that is already signed is left as it is. A digest signed with a private key (and its pass phrase, where it has one) verifies with the matching public key, and only that digest, signature and key do; a wrong or missing pass phrase is an error. When signing fails, because of the key, the file, a full disk or at any other point, and when the process is ended at any point, the index file holds either what it held before or the complete signed index; somebody loading or signing the same file meanwhile sees one of these two as well, and two signers leave an index signed once.",
  ["inputs", "faults", "crash_points", "schedules"], "all outcomes over key files, bodies and indexes; a failure, an end and a full disk at every filesystem operation; all schedules of two signers or a signer and a loader up to a preemption bound",
  "Tests sign one index once with nothing in the way.",
  ["pkg/signature/sign.go", "pkg/signature/rsa.go", "pkg/apk/index.go"], [("SignIndex", "pkg/signature/sign.go"), ("RSASignSHA1Digest", "pkg/signature/rsa.go"), ("index signature check", "pkg/apk/index.go")], ["index file bytes", "verdict of a loader", "signing error"])

prop("L01", "Fixing the world installs what is missing, once, and refuses conflicts",
  "FixateWorld installs exactly the resolved packages that are not installed yet, in the resolved order, and records them after the records that were there, which stay as they were together with their files. When two of the packages that would then be installed are in conflict ('!' with a name, a version or a virtual of another one), or the world cannot be resolved, it fails and changes nothing. Fixing the same world again succeeds and changes nothing.",
  ["histories", "inputs"], "all histories of two or three worlds over all universes of up to three packages out of a pool with versions, virtuals, conflicts and install_if, behind signed indexes",
  "No test runs it; single installations are tested.",
  [I, R, "pkg/apk/installed.go"], [("FixateWorld", I), ("isInstalledPackage", "pkg/apk/installed.go")], ["installed database", "files of packages", "error"])

prop("Z01", "Nothing stays open or behind when an operation is over",
  "When an operation of the library has returned, whether it succeeded, failed or was cancelled, every file that it opened on the disk or in the filesystem it was given and the body of every response it received are closed, the goroutines it started have ended, and the temporary files and directories it made are gone. Excepted is what the caller is given to close, and the expanded data of packages, which filesystems may go on reading; when expanding a package fails nothing at all is left.",
  ["faults", "inputs", "crash_points"], "one execution per operation of the disk, filesystem and network, for each of the uses of the library, in which it fails, breaks off, or the context ends; all sizes at which the disk is full",
  "Tests look at results only.",
  [I, "pkg/expandapk/expandapk.go", "pkg/apk/cache.go", "pkg/apk/transport.go", "pkg/apk/index.go", "pkg/tarball/write.go", "pkg/fs/apkfs.go"], [("InstallPackages / CalculateWorld / FetchPackage", I), ("ExpandApk", "pkg/expandapk/expandapk.go"), ("cached downloads", "pkg/apk/cache.go")], ["open files", "open response bodies", "running goroutines", "temporary files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

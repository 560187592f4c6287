import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="pkg/apk/implementation.go"
p("C01","An installed root depends only on its inputs",
 "Installing the same ordered list of packages with the same source date always produces the same root: the same files, contents, modes, owners, links and extended attributes, and byte-identical installed database, scripts archive, triggers and world. Nothing about the run may show in the result: not goroutine scheduling, not network timing, not whether a package came from the network or from the package cache, not what other installs in the same process or on the same cache directory are doing, not the wall clock.",
 ["schedules","histories","fault_sequences","inputs"],
 "every interleaving of the concurrent expansion and install goroutines, every latency assignment, every state of the package cache, every set of concurrent installs sharing process-wide state, every package set (with conflicts, overwrites, links, triggers and scripts)",
 "The tests install a handful of packages once, alone, in whatever order the Go scheduler picks, and compare little of the resulting root.",
 [I,"pkg/apk/install.go","pkg/apk/installed.go"],
 [("packages are expanded concurrently but installed in order, gated by per-package channels",I+":InstallPackages"),("sorted installed-db entries",  "pkg/apk/installed.go:sortTarHeaders"),("source date epoch stamped on script headers","pkg/apk/installed.go:updateScriptsTar")],
 ["root tree, lib/apk/db/installed, scripts.tar, triggers, etc/apk/world after the call returns"])
p("C02","A successful install is a complete install",
 "When an install call returns success, every requested package is fully present: each of its files is in the root with the bytes, mode and link target the package carries (or those of the later package that was allowed to replace it), and the installed database, scripts archive and triggers record every package exactly once, in the requested order, with its files, their modes and owners, and checksums. A failed read, write, short write, full disk, failed close, dropped connection or truncated download during the call makes the call fail; it never makes it succeed with something missing, empty, truncated or stale.",
 ["fault_sequences","inputs","schedules"],
 "every single or multiple I/O or network fault at every step of an install, for every package list and both root file systems",
 "No test injects a disk or network error into an install, and none compares every installed file and database record with the packages.",
 [I,"pkg/apk/install.go","pkg/apk/installed.go","pkg/expandapk/expandapk.go","pkg/fs/rwosfs.go"],
 [("error propagation from every expansion and install step",I+":InstallPackages"),("write and copy of one file","pkg/apk/install.go:writeOneFile"),("installed db append","pkg/apk/installed.go:AddInstalledPackage")],
 ["return value of the install call against the root tree and database files"])
p("C03","The package cache survives crashes and concurrent processes",
 "Any number of processes may use one cache directory, and any of them may be killed at any instant: an install that later succeeds using that directory yields exactly the root an install without a cache yields. No crash point or interleaving leaves a cache state that makes a later install succeed with truncated, mixed or missing content, or makes it fail although nothing is wrong with the network, the disk or the packages.",
 ["crash_points","schedules","histories","fault_sequences"],
 "every crash point of every process sharing the cache, every interleaving of their file-system operations, every later sequence of installs",
 "Tests use a fresh cache directory from one process and never stop in the middle of a cache write.",
 [I,"pkg/expandapk/expandapk.go"],
 [("expand into a temporary directory, then rename members into place",I+":cachePackage"),("a cache entry is used only if every member is there",I+":cachedPackage"),("uncompressed data tar rebuilt on demand","pkg/expandapk/expandapk.go:PackageData")],
 ["roots installed through the cache after crashes"],[("cache entry","control, data and signature members of one package named by hash","cacheDirForPackage")])
p("C04","Offline mode serves exactly what the last online run obtained",
 "After an online run has successfully obtained the indexes, keys and packages of a set of repositories through a cache directory, from servers that tag their responses, an offline run on that directory makes no network request and obtains the same index, key and package contents for the same addresses. Later online refreshes that fail, are interrupted or are killed at any point leave what was there, or replace a resource by a complete newer version of it, as long as the clock has not stepped back between refreshes. Content is never served for another address, and an address never obtained makes the offline run fail.",
 ["histories","crash_points","fault_sequences"],
 "every history of server updates (including roll-backs), successful, failed and crashed refreshes, several resources in one directory, followed by an offline run",
 "Offline mode is tested against one hand-made cache entry; no test refreshes, fails or crashes before going offline.",
 ["pkg/apk/cache.go",I,"pkg/apk/index.go"],
 [("offline lookup picks the newest cached entry","pkg/apk/cache.go:RoundTrip"),("temporary file plus rename","pkg/apk/cache.go:retrieveAndSaveFile"),("cache path from URL","pkg/apk/cache.go:cachePathFromURL")],
 ["results of offline index, keyring and install calls; requests seen by the server"])
p("C05","A cached response is the server's bytes for that address",
 "A read through the etag cache returns, for the requested address, the complete bytes of one version the server offered for that address, none older than what this process has read there before, whatever else is in the cache directory and whatever other processes, crashes and failed downloads have left there. Files are only ever created inside the cache directory, whatever etag the server sends.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every interleaving of cached requests and server updates, every crash or network or disk fault during a save, every etag string",
 "Tests make single requests against a server that never changes, fails or sends hostile headers.",
 ["pkg/apk/cache.go"],
 [("entry named by etag","pkg/apk/cache.go:cacheFileFromEtag"),("head request for the current etag, file if present","pkg/apk/cache.go:get"),("temporary file plus rename","pkg/apk/cache.go:retrieveAndSaveFile")],
 ["bytes returned by index, key and package fetches","paths created in the simulated file system"])
p("C06","Concurrent requests for one package share one download",
 "Within one process, however many concurrent installs with a shared cache directory need the same package, its archive is downloaded from the network at most once when that download succeeds and its cache entry stays usable. Repeated or concurrent loading of an unchanged index through a cache likewise transfers its body at most once per version of the index.",
 ["schedules","histories"],
 "every interleaving of any number of concurrent and consecutive installs in one process",
 "No test counts downloads across concurrent callers.",
 [I,"pkg/apk/cache.go","pkg/apk/index.go"],
 [("process-wide table of single-flight expansions",I+":apkCache.get"),("process-wide table of etag requests","pkg/apk/cache.go:etagCache.get"),("process-wide table of parsed indexes","pkg/apk/index.go:indexCache.get")],
 ["requests seen by the simulated server"])
p("C07","One caller's failure or cancellation never becomes another's",
 "An operation whose own context is live, whose own disk and network accesses succeed and whose inputs are good succeeds, whatever happened to other operations in the process before it or at the same time: a failed download, a full disk, a cancelled context or a server error met by one caller is not remembered and is not delivered to another. Once a transient fault has ended, simply calling again works.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of operations with faults and cancellations directed at some of them",
 "No test cancels or fails one of several concurrent calls and looks at the others, or calls again after a failure.",
 [I,"pkg/apk/cache.go","pkg/apk/index.go"],
 [("process-wide once-per-address tables",I+":apkCache.get"),("etag table","pkg/apk/cache.go:etagCache.get"),("index table","pkg/apk/index.go:indexCache.get")],
 ["error results of unaffected operations"])
p("C08","A resumed download yields the exact bytes of one version",
 "A download made through the retrying transport delivers exactly the bytes of one version of the resource, in order, without gap or repetition, or ends with an error; it never ends cleanly with anything else. It survives isolated connection failures at any byte of the body, also when the server ignores range requests; when a server answers with another range than the one asked for, or a resource whose versions the server identifies changes between attempts, it ends with the exact bytes of one version or with an error.",
 ["fault_sequences","inputs","schedules"],
 "every sequence of connection cuts, refusals, error statuses, ignored or wrong ranges and content changes, at every byte offset, for every read size",
 "The tests cut one body once at fixed offsets against a well-behaved server.",
 ["pkg/apk/transport.go"],
 [("range request from the current offset, bounded retries","pkg/apk/transport.go:reset"),("discard of already delivered bytes when the server sends the whole body","pkg/apk/transport.go:reset")],
 ["bytes and error delivered to the reader"])
p("C09","No unsigned or wrongly signed index is ever accepted",
 "An index of a repository for which signature checking is in force is accepted only if its bytes carry a valid signature by a key in that caller's keyring. This holds whatever other callers with other keyrings or with checking switched off have loaded in the same process before or concurrently, whatever is in the cache directory, and however the server answers.",
 ["histories","schedules","inputs","fault_sequences"],
 "every sequence and interleaving of index loads with different keyrings and options, every tampered, truncated, re-signed or unsigned index body",
 "Tests load an index with one keyring in an otherwise idle process.",
 ["pkg/apk/index.go","pkg/signature/rsa.go"],
 [("signature verification before parsing","pkg/apk/index.go:getRepositoryIndex"),("exemption list","pkg/apk/index.go:shouldCheckSignatureForIndex"),("process-wide table of parsed indexes","pkg/apk/index.go:indexCache.get")],
 ["success or failure of index loads"])
p("C10","Splitting a package does not depend on how its bytes arrive",
 "Expanding, parsing or resolving a package gives the same sections, hashes, sizes, metadata and file contents however the stream is cut into reads. A stream that ends early, fails with an error, or fails to be written out completely gives an error, never a package with a section missing, shortened or mistaken for another.",
 ["inputs","fault_sequences"],
 "every chunking, every truncation point, every read-error point, every disk fault while writing sections, for signed and unsigned packages",
 "Tests read whole well-formed packages from files.",
 ["pkg/expandapk/expandapk.go","pkg/apk/resolveapk.go","pkg/apk/package.go","pkg/fs/apkfs.go"],
 [("gzip stream splitter","pkg/expandapk/expandapk.go:ExpandApk"),("byte-counting non-read-ahead reader","pkg/apk/resolveapk.go:ResolveApk"),("file checksums","pkg/expandapk/expandapk.go:checkSums")],
 ["fields of the expanded or resolved package and the section files"])
p("C11","Failed or cancelled operations leave no temporary files behind",
 "When an operation returns, in success, failure or cancellation, no temporary file or directory it created remains in the temporary directory, in the cache directory, in the installed root or next to an index it signs (other than finished cache entries), provided the file system lets it remove them.",
 ["fault_sequences","schedules","histories"],
 "every fault or cancellation point of installs, cached fetches, index loads and package expansions",
 "No test looks at the temporary directory after a failure.",
 ["pkg/expandapk/expandapk.go",I,"pkg/apk/cache.go","pkg/apk/install.go"],
 [("temporary directory removed when the expansion is closed","pkg/expandapk/expandapk.go:Close"),("temporary file removed after copy","pkg/apk/install.go:installRegularFile"),("temporary cache file","pkg/apk/cache.go:retrieveAndSaveFile")],
 ["simulated /tmp, cache directory and root after the operation returns"])
p("C12","A local repository index is never served stale",
 "Loading the index of a repository on the local file system returns content the index file held at some moment during the call, also when the process has loaded it before, and an error if it cannot be read. This holds when the file is replaced by one with an older timestamp or after the clock was changed, when a read fails once, and with any number of concurrent loads.",
 ["histories","schedules","fault_sequences"],
 "every history of replacements (with forward and backward clock jumps), loads and transient read errors",
 "Tests load local indexes that never change.",
 ["pkg/apk/index.go"],
 [("modification-time comparison for file indexes","pkg/apk/index.go:indexCache.get")],
 ["packages of the returned index"])
p("C13","A keyring holds exactly the keys it was asked for",
 "After keyring initialisation returns success, every requested key is stored under its file name with exactly the source's bytes, whichever mixture of files and addresses was requested, whatever was there before and however the transfers were scheduled or interrupted. Of several keys with one file name the last one requested is stored, never a mixture. A key that cannot be fetched or stored completely, or that is answered with an error status, makes initialisation fail; release keys that are already withdrawn on the current date are not installed.",
 ["fault_sequences","schedules","histories","inputs"],
 "every fault, error status, latency order and pre-existing key file, at every date of a release's key schedule",
 "Tests fetch one key from a healthy server.",
 [I,"pkg/apk/releases.go"],
 [("concurrent fetch of all keys",I+":InitKeyring"),("release key download",I+":fetchAlpineKeys"),("key validity window","pkg/apk/releases.go:KeysFor")],
 ["files in etc/apk/keys after the call"])
p("C14","Database operations on the root never hide an I/O failure",
 "Initialising the root, and setting or reading the world, the repositories, the installed database, users and groups, either succeed with exactly the state they promise (what was set is what is read back, lists are complete and in order) or return an error. A failed or short read, write or close, or an over-long line, never yields success with a partial, empty or merged list or a half-written file; an operation that reported failure may leave the one file it was writing incomplete.",
 ["fault_sequences","inputs","histories"],
 "every single fault at every step of a sequence of set, add and get operations on both root file systems",
 "The tests do one operation on a healthy file system.",
 [I,"pkg/apk/world.go","pkg/apk/repo.go","pkg/apk/installed.go"],
 [("set/get world","pkg/apk/world.go"),("set/get repositories","pkg/apk/repo.go:GetRepositories"),("installed database parse","pkg/apk/installed.go:ParseInstalled"),("initial layout",I+":InitDB")],
 ["values read back and errors returned"])
p("C15","Retrying an interrupted install converges",
 "If an install call fails or is cancelled before it starts to record packages in the database, and the cause then goes away, calling it again on the same client and root, with the same list, in another order or with some of its packages left out, succeeds and leaves the installed database, scripts, triggers and files as if the first call had never been made: each package recorded once, in order, with all of its files and none of another's. (Directories of a package that is left out may stay.)",
 ["fault_sequences","histories"],
 "every fault or cancellation point of one or more failed install calls followed by a clean one",
 "No test retries a failed install.",
 [I,"pkg/apk/install.go","pkg/apk/installed.go"],
 [("already-installed packages are skipped",I+":InstallPackages"),("ownership bookkeeping for overwrites","pkg/apk/install.go:installAPKFiles")],
 ["root tree and installed database after the retry"])
p("C16","A written root archive is complete, faithful and reproducible",
 "Writing a root file system as a tar or compressed tar either returns an error or has written a complete archive, with its terminator, that holds every entry of the tree once with its content, type, mode, owner, link target and extended attributes after the requested overrides. Two archives of equal trees with equal options are byte-identical; a failed or short write of the destination, or a failed read of the source, is always reported.",
 ["fault_sequences","inputs"],
 "every write, close and read fault, every cancellation point, every tree and option combination, both file-system kinds as source",
 "Tests write small trees to memory buffers that never fail.",
 ["pkg/tarball/write.go","pkg/tarball/tarball.go"],
 [("walk and header construction","pkg/tarball/write.go:writeTar"),("stream finalisation","pkg/tarball/write.go:WriteTar, WriteTargz")],
 ["bytes received by the destination and the returned error"])
p("C17","Signing an index is atomic",
 "Signing an index file either leaves the file exactly as it was or leaves a validly signed index whose content is unchanged, whatever fails and whenever the process is killed, also in the eyes of concurrent readers and signers. Success means the file verifies against the public half of the key, under the name the key implies, and signing an already signed index leaves it as it was.",
 ["crash_points","fault_sequences","histories"],
 "every crash point and every I/O fault during signing, repeated signing",
 "Tests sign once without faults.",
 ["pkg/signature/sign.go","pkg/signature/rsa.go"],
 [("read, sign, write back","pkg/signature/sign.go:SignIndex"),("already-signed test","pkg/signature/sign.go:indexIsAlreadySigned")],
 ["index file after the call or crash"])
p("C18","The in-memory file system is linearizable",
 "Concurrent operations on one in-memory file system (create, write, mkdir, remove, link, symlink, mode, owner, attribute, read and list operations) behave as if each took effect at one instant between its call and its return, consistent with an ordinary file-system tree. No interleaving loses an entry, shows a half-made one, crashes or deadlocks.",
 ["schedules","histories"],
 "every interleaving of concurrent operations on overlapping paths",
 "Tests use the file system from one goroutine.",
 ["pkg/fs/memfs.go"],
 [("per-node mutex","pkg/fs/memfs.go:node")],
 ["recorded history of calls and results"])
p("C19","A directory-backed file system is the same after reopening",
 "Everything done through a directory-backed file system is visible through it at once, and is seen the same after opening the directory again, in the same or another process: names, contents, types, link targets and permissions (extended attributes and variants of a name that differ in case only live in memory), with reported success meaning the change is on disk. An operation the disk refused is reported and does not show, except that a failed write may leave the one file partly written.",
 ["histories","fault_sequences","inputs"],
 "every sequence of file-system operations with disk faults at any step, followed by a reopen",
 "Tests do single operations and do not reopen after failures.",
 ["pkg/fs/rwosfs.go"],
 [("every operation applied to disk and to an in-memory overlay","pkg/fs/rwosfs.go"),("overlay rebuilt from disk on open","pkg/fs/rwosfs.go:DirFS")],
 ["tree seen before and after reopening"])
p("C20","Every operation ends, cleanly",
 "Every install, index load, keyring initialisation, resolution and package fetch ends with a result or an error; none deadlocks, panics or retries for ever, whatever fails. After its context is cancelled it ends promptly as long as the disk and the server connections respond to cancellation, and once it has ended and its peers have let go it leaves no goroutine running and no network connection held.",
 ["schedules","fault_sequences","histories"],
 "every interleaving, fault and cancellation point of any set of concurrent operations",
 "Tests run healthy operations to completion and do not look for leftover goroutines or descriptors.",
 [I,"pkg/apk/index.go","pkg/apk/cache.go","pkg/apk/transport.go","pkg/expandapk/expandapk.go"],
 [("bounded error groups and per-package channels",I+":InstallPackages"),("bounded retries","pkg/apk/transport.go")],
 ["simulated time and steps to return, live goroutines and descriptors afterwards"])
p("C21","Resolved package facts belong to the right package",
 "Computing the details of a list of packages concurrently returns one result per package, in the same order, and each result carries the name, version, hashes and section sizes that computing that package alone gives, whatever order the downloads finish in. If the signature or control section of any package cannot be obtained completely, the call fails.",
 ["schedules","fault_sequences","inputs"],
 "every completion order and every network or disk fault for every list of packages, with and without a cache",
 "Tests compute two or three packages from a local server in one order.",
 [I,"pkg/apk/resolveapk.go"],
 [("result slot per package",I+":CalculateWorld")],
 ["returned list"])
p("C22","Resolving the same world gives the same answer every time",
 "Resolving a world against the same indexes returns the same packages in the same order, or the same kind of failure, every time: in any process, under any scheduling, any map iteration order and any order of index arrival.",
 ["schedules","inputs","histories"],
 "every iteration order of the resolver's tables and every completion order of index downloads, for every repository universe",
 "Tests resolve each world once, with whatever map order the run happened to get.",
 ["pkg/apk/repo.go","pkg/apk/version.go","pkg/apk/index.go"],
 [("deterministic tie-break","pkg/apk/repo.go:comparePackages"),("index slot per repository","pkg/apk/index.go:GetRepositoryIndexes"),("install_if processing","pkg/apk/repo.go:GetPackageWithDependencies")],
 ["returned package list and conflicts"])
p("C23","A package that does not match its index is never installed",
 "If the bytes obtained for a package differ from what the repository index promised for it (its control section does not match the index checksum, its data section does not match the hash its control section names, or a file in it does not match the checksum it carries), the install fails and neither that package's files nor its record appear in the root or stay usable in the cache. This holds whatever the network or a mirror does: stale or swapped packages, flipped bits, mixed versions.",
 ["inputs","fault_sequences","histories"],
 "every substitution, corruption or version change of a package between index and download, online and through the cache",
 "Tests serve the right bytes only.",
 [I,"pkg/expandapk/expandapk.go"],
 [("expansion of the fetched package",I+":expandPackage"),("section hashes","pkg/expandapk/expandapk.go:ExpandApk")],
 ["result of the install and the cache afterwards"])
p("C24","Credentials are sent where they belong, always, and nowhere else",
 "Every request an operation sends for an address it has credentials for, given in the address or for its host, carries exactly those, also when it checks a cached copy, is repeated, resumes a download or runs at the same time as other callers' requests; only the list of Alpine releases and its keys are always asked for without. No request carries credentials given for another host or to another caller, also when a server redirects. An operation with valid credentials therefore succeeds where they are required unless something of its own fails.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of callers with different credentials, every repeated, resumed, revalidating or redirected request, every connection fault",
 "Tests make one request with one set of credentials and look at that.",
 [I,"pkg/apk/index.go","pkg/apk/cache.go","pkg/apk/transport.go","pkg/apk/repo.go"],
 [("credentials of package downloads",I+":FetchPackage"),("credentials of key downloads",I+":InitKeyring"),("credentials of index downloads","pkg/apk/index.go:getRepositoryIndex"),("resumed requests","pkg/apk/transport.go:rangeRetryReader.reset"),("requests for cached responses","pkg/apk/cache.go:RoundTrip")],
 ["Authorization header of every request seen by the simulated servers","results of operations on servers that require credentials"])
p("C25","When a call has returned it is over",
 "When a call has returned, with a result, with an error or because its context ended, nothing that it started still acts: nothing sends another request, changes a file of the root, of the cache or of a temporary directory, reads from the source it was given or writes to its destination. What the caller does next with these meets no leftover of the call.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of the goroutines of a call, every fault and cancellation point that makes it return early",
 "Tests do not look at what happens after a call has returned, and an early return needs a fault at a particular moment.",
 [I,"pkg/expandapk/expandapk.go","pkg/apk/cache.go","pkg/apk/transport.go","pkg/tarball/write.go"],
 [("waiting for all expansions",I+":InstallPackages"),("waiting for all keys",I+":InitKeyring"),("waiting for all facts",I+":CalculateWorld"),("section splitting","pkg/expandapk/expandapk.go:ExpandApk")],
 ["system calls that change files, requests, and calls to sources and destinations, by operation, after it returned"])
p("C26","The number of open package downloads is bounded",
 "However many packages an install or a calculation of package details is given, it never has more package downloads open at a time than there are processors plus one.",
 ["schedules","inputs","fault_sequences"],
 "every list of packages, every latency and fault of the downloads, every interleaving",
 "Tests use a few packages and do not count what is open at a time.",
 [I],
 [("limit of the error group",I+":InstallPackages"),("limit of the error group",I+":CalculateWorld")],
 ["package downloads open at a time as the simulated servers see them"])
p("C27","A process sees one version of each remote index",
 "Once a process has loaded an index from a remote address, every later or concurrent successful load of that address in the same process that verifies it the same way returns the same contents, whatever the server publishes meanwhile; likewise a key obtained through one cache directory stays the same key. Loads that fail do not settle which version it is.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of loads with updates of the server, every failed load in between",
 "Tests load from servers that never change.",
 ["pkg/apk/index.go","pkg/apk/cache.go"],
 [("process-wide table of parsed indexes","pkg/apk/index.go:indexCache.get"),("process-wide table of etag requests","pkg/apk/cache.go:etagCache.get")],
 ["packages of the returned index, bytes of the stored keys"])
p("C28","A package opened as a file system shows exactly the package",
 "A package or its control section opened as a file system (APKFS, or the file systems of an expanded package) has every entry of the archive once, under its path, with its kind, permissions, owner, link target and size; each directory lists exactly its own entries, in the same order every time; walking it ends; links within the package lead where they lead in it. Any number of readers at once, at any pace, get exactly the archived content. Where the disk fails, the call reports it and never returns other bytes or a shorter file as success; a failed or closed open leaves no descriptor, and closing the file system leaves no temporary file.",
 ["schedules","fault_sequences","inputs"],
 "every package, every interleaving of readers, every disk fault while they read",
 "Tests look at one package, one reader at a time, on a disk that works.",
 ["pkg/fs/apkfs.go","internal/tarfs/tarfs.go","pkg/apk/expandapk.go","pkg/expandapk/expandapk.go"],
 [("archive read again for every file opened","pkg/fs/apkfs.go:APKFS.Open"),("index of an expanded archive","internal/tarfs/tarfs.go:New")],
 ["names, kinds, modes, sizes and link targets shown","bytes read","open descriptors and temporary files"])
p("C34","Nothing outside the root is touched or shown",
 "Whatever names, links and link targets packages have, installing them onto a directory-backed root changes nothing on the disk outside that directory, the cache and the temporary directory, and makes nothing from outside visible in it; the same holds for every operation made through a directory-backed file system. Links, absolute or with any number of '..', lead from the root of that file system, never from that of the disk. This holds with failing disks, cancelled and repeated installs, crashes, and after the directory has been opened again.",
 ["inputs","fault_sequences","crash_points","histories"],
 "every combination of entry names, link names and link targets across packages, every sequence of operations, faults and crashes, and reopening of the directory",
 "Tests try a few names in one package on an empty root; what a name leads to depends on the links that earlier packages and earlier calls have left on the disk.",
 ["pkg/fs/rwosfs.go","pkg/apk/install.go","pkg/apk/cache.go"],
 [("names and links resolved on disk","pkg/fs/rwosfs.go:dirFS.onDisk"),("entries written to the root","pkg/apk/install.go:APK.installRegularFile")],
 ["files, links and modes outside the root","content read through the root"])
# not applicable
p("C30","Version comparison is a total order that agrees with apk",
 "Package versions compare by one total order, the one apk-tools defines, and every constraint operator agrees with it.",
 ["inputs"],"every pair and triple of version strings","A table of examples cannot cover all version strings.",
 ["pkg/apk/version.go"],[("version parsing and comparison","pkg/apk/version.go")])
p("C31","A resolution satisfies every dependency and conflicts with none",
 "When resolution succeeds, the returned list contains a provider satisfying each requested and transitive dependency, no two packages of one name, no excluded package, and dependencies come before dependents.",
 ["inputs"],"every repository universe and world","Examples cannot cover all dependency graphs.",
 ["pkg/apk/repo.go"],[("constraint propagation","pkg/apk/repo.go")])
p("C32","Index and database text formats round-trip",
 "Writing an index or an installed-database record and reading it back yields the same packages and fields.",
 ["inputs"],"every package record","Examples cover a few records.",
 ["pkg/apk/apkindex.go","pkg/apk/package.go","pkg/apk/installed.go"],[("text writer and parser","pkg/apk/apkindex.go")])
p("C33","User and group files round-trip",
 "Loading and writing a passwd or group file preserves every entry, and a malformed line is an error.",
 ["inputs"],"every passwd and group file","Examples cover a few files.",
 ["pkg/passwd/passwd.go","pkg/passwd/group.go"],[("line parser and writer","pkg/passwd")])
import jsonschema,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P:
        jsonschema.validate(x,s); assert len(x["title"])<=80
        f.write(json.dumps(x)+"\n")
print(len(P))

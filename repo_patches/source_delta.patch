From fadb5e9a019b901e63e51b6c6292562980ab44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 01/59] fix: do not deliver one caller's failure or
 cancellation to other callers

The process-wide tables of expanded packages, etag responses and remote
indexes remembered errors (and shared closed responses) for ever. Remember
successes only, let each waiting caller do the work under its own context,
and key packages and etag files by the cache directory they live in.
---
 pkg/apk/cache.go          | 86 +++++++++++++++++----------------------
 pkg/apk/implementation.go | 34 +++-------------
 pkg/apk/index.go          | 49 ++++++++++------------
 pkg/apk/util.go           | 39 ++++++++++++++++++
 4 files changed, 105 insertions(+), 103 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 54e7883..40abbb9 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -15,6 +15,7 @@
 package apk
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -22,7 +23,6 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
-	"sync"
 )
 
 // This is terrible but simpler than plumbing around a cache for now.
@@ -30,30 +30,24 @@ import (
 // Doing this cuts down on the number of requests we send for index and keys.
 var globalEtagCache = &etagCache{}
 
-type etagResp struct {
-	resp      *http.Response
-	err       error
-	cacheFile string
-}
-
 type etagCache struct {
-	// url -> *sync.Once
-	etags sync.Map
-
-	// url -> etagResp
-	resps sync.Map
+	// url and cache file -> file that holds the response
+	flights flights[string]
 }
 
-// get dedupes incoming etag-based requests by url (using a sync.Map[string]sync.Once) and stores the results
-// in a sync.Map[string]etagResp. If we request the same URL multiple times, we will only ever reach out to
-// the internet for the first once and reuse the results for all subsequent calls (unless the response does
-// not have an etag).
+// errNoEtag is returned internally when the server does not send etags, so we can't cache.
+var errNoEtag = errors.New("response has no etag")
+
+// get dedupes incoming etag-based requests by url and remembers which file a successful response was saved in.
+// If we request the same URL multiple times, we will only ever reach out to the internet until it has succeeded
+// once and reuse the results for all subsequent calls (unless the response does not have an etag).
 func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile string) (*http.Response, error) {
-	url := request.URL.String()
+	// The response to hand back when we didn't get as far as caching it.
+	var uncached *http.Response
 
-	// Do all the expensive things inside the once.
-	once, _ := e.etags.LoadOrStore(url, &sync.Once{})
-	once.(*sync.Once).Do(func() {
+	// Do all the expensive things once.
+	key := request.URL.String() + " " + cacheFile
+	etagFile, err := e.flights.do(request.Context(), key, func() (string, error) {
 		req := request.Clone(request.Context())
 		req.Method = http.MethodHead
 		resp, rerr := t.wrapped.Do(req)
@@ -61,31 +55,28 @@ func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile stri
 			// We don't expect any body from a HEAD so just always close it to appease the linter.
 			resp.Body.Close()
 		}
-		if rerr != nil || resp.StatusCode != 200 {
-			e.resps.Store(url, etagResp{
-				resp: resp,
-				err:  rerr,
-			})
-			return
+		if rerr != nil {
+			return "", rerr
+		}
+		if resp.StatusCode != 200 {
+			uncached = resp
+			return "", fmt.Errorf("unexpected status: %s", resp.Status)
 		}
 
 		initialEtag, ok := etagFromResponse(resp)
 		if !ok {
-			return
+			return "", errNoEtag
 		}
 
 		// We simulate content-based addressing with the etag values using an .etag
 		// file extension.
 		etagFile := cacheFileFromEtag(cacheFile, initialEtag)
 		if _, err := os.Stat(etagFile); err == nil {
-			e.resps.Store(url, etagResp{
-				cacheFile: etagFile,
-			})
-			return
+			return etagFile, nil
 		}
 
 		// Only download the index once.
-		etagFile, err := t.retrieveAndSaveFile(request, func(r *http.Response) (string, error) {
+		return t.retrieveAndSaveFile(request, func(r *http.Response) (string, error) {
 			// On the etag path, use the etag from the actual response to
 			// compute the final file name.
 			finalEtag, ok := etagFromResponse(r)
@@ -95,33 +86,28 @@ func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile stri
 
 			return cacheFileFromEtag(cacheFile, finalEtag), nil
 		})
-		e.resps.Store(url, etagResp{
-			err:       err,
-			cacheFile: etagFile,
-		})
 	})
-
-	v, ok := e.resps.Load(url)
-	if !ok {
+	if errors.Is(err, errNoEtag) {
 		// If the server doesn't return etags, and we require them,
 		// then do not cache.
 		return t.wrapped.Do(request)
 	}
-	resp := v.(etagResp)
-
-	// If we didn't manage to cache it, return the response and/or error.
-	if resp.cacheFile == "" {
-		return resp.resp, resp.err
+	if uncached != nil {
+		// If we didn't manage to cache it, return the response.
+		return uncached, nil
+	}
+	if err != nil {
+		return nil, err
 	}
 
-	f, err := os.Open(resp.cacheFile)
+	f, err := os.Open(etagFile)
 	if err != nil {
-		return nil, fmt.Errorf("open(%q): %w", resp.cacheFile, err)
+		return nil, fmt.Errorf("open(%q): %w", etagFile, err)
 	}
 
 	fi, err := f.Stat()
 	if err != nil {
-		return nil, fmt.Errorf("stat(%q): %w", resp.cacheFile, err)
+		return nil, fmt.Errorf("stat(%q): %w", etagFile, err)
 	}
 
 	return &http.Response{
@@ -266,9 +252,13 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 		return "", fmt.Errorf("wrapped client is nil")
 	}
 	resp, err := t.wrapped.Do(request)
-	if err != nil || resp.StatusCode != 200 {
+	if err != nil {
 		return "", err
 	}
+	if resp.StatusCode != 200 {
+		resp.Body.Close()
+		return "", fmt.Errorf("unexpected status: %s", resp.Status)
+	}
 
 	// Determine the file we will caching stuff in based on the URL/response
 	cacheFile, err := cp(resp)
diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index c105a25..c9627ce 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -31,7 +31,6 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
-	"sync"
 	"time"
 
 	"github.com/chainguard-dev/clog"
@@ -909,38 +908,17 @@ func (a *APK) cachedPackage(ctx context.Context, pkg InstallablePackage, cacheDi
 	return &exp, nil
 }
 
-type apkResult struct {
-	exp *expandapk.APKExpanded
-	err error
-}
-
 type apkCache struct {
-	// url -> *sync.Once
-	onces sync.Map
-
-	// url -> apkResult
-	resps sync.Map
+	// url, checksum and cache directory -> expanded package
+	flights flights[*expandapk.APKExpanded]
 }
 
 func (c *apkCache) get(ctx context.Context, a *APK, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
-	u := pkg.URL()
-	// Do all the expensive things inside the once.
-	once, _ := c.onces.LoadOrStore(u, &sync.Once{})
-	once.(*sync.Once).Do(func() {
-		exp, err := expandPackage(ctx, a, pkg)
-		c.resps.Store(u, apkResult{
-			exp: exp,
-			err: err,
-		})
+	key := pkg.URL() + " " + pkg.ChecksumString() + " " + a.cache.dir
+	// Do all the expensive things once.
+	return c.flights.do(ctx, key, func() (*expandapk.APKExpanded, error) {
+		return expandPackage(ctx, a, pkg)
 	})
-
-	v, ok := c.resps.Load(u)
-	if !ok {
-		panic(fmt.Errorf("did not see apk %q after writing it", u))
-	}
-
-	result := v.(apkResult)
-	return result.exp, result.err
 }
 
 func (a *APK) expandPackage(ctx context.Context, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 9417726..a1db173 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -53,7 +53,7 @@ type indexResult struct {
 
 type indexCache struct {
 	// For remote indexes.
-	onces sync.Map
+	flights flights[*APKIndex]
 
 	// For local indexes.
 	sync.Mutex
@@ -66,35 +66,30 @@ type indexCache struct {
 func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte, arch string, opts *indexOpts) (*APKIndex, error) {
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
 		// We don't want remote indexes to change while we're running.
-		once, _ := i.onces.LoadOrStore(u, &sync.Once{})
-		once.(*sync.Once).Do(func() {
-			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
-				idx: idx,
-				err: err,
-			})
+		return i.flights.do(ctx, u, func() (*APKIndex, error) {
+			return getRepositoryIndex(ctx, u, keys, arch, opts)
 		})
-	} else {
-		i.Lock()
-		defer i.Unlock()
+	}
 
-		// We do expect local indexes to change, so we check modtimes.
-		stat, err := os.Stat(u)
-		if err != nil {
-			return nil, nil
-		}
+	i.Lock()
+	defer i.Unlock()
 
-		mod := stat.ModTime()
-		before, ok := i.modtimes[u]
-		if !ok || mod.After(before) {
-			// If this is the first time or it has changed since the last time...
-			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
-				idx: idx,
-				err: err,
-			})
-			i.modtimes[u] = mod
-		}
+	// We do expect local indexes to change, so we check modtimes.
+	stat, err := os.Stat(u)
+	if err != nil {
+		return nil, nil
+	}
+
+	mod := stat.ModTime()
+	before, ok := i.modtimes[u]
+	if !ok || mod.After(before) {
+		// If this is the first time or it has changed since the last time...
+		idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
+		i.indexes.Store(u, indexResult{
+			idx: idx,
+			err: err,
+		})
+		i.modtimes[u] = mod
 	}
 
 	v, ok := i.indexes.Load(u)
diff --git a/pkg/apk/util.go b/pkg/apk/util.go
index 72e04b2..9a56f48 100644
--- a/pkg/apk/util.go
+++ b/pkg/apk/util.go
@@ -16,14 +16,53 @@ package apk
 
 import (
 	"archive/tar"
+	"context"
 	"errors"
 	"fmt"
 	"io"
 	"strings"
+	"sync"
 
 	"golang.org/x/exp/slices"
 )
 
+// flights runs the work for a key at most once at a time and remembers its result once it
+// has succeeded. A failure belongs to the caller that met it: it is not remembered, and a
+// caller that was waiting does the work itself, under its own context.
+type flights[T any] struct {
+	// key -> *flight[T]
+	m sync.Map
+}
+
+type flight[T any] struct {
+	sem  chan struct{}
+	done bool
+	val  T
+}
+
+func (fs *flights[T]) do(ctx context.Context, key string, fn func() (T, error)) (T, error) {
+	v, _ := fs.m.LoadOrStore(key, &flight[T]{sem: make(chan struct{}, 1)})
+	f := v.(*flight[T])
+
+	select {
+	case f.sem <- struct{}{}:
+	case <-ctx.Done():
+		var zero T
+		return zero, ctx.Err()
+	}
+	defer func() { <-f.sem }()
+
+	if f.done {
+		return f.val, nil
+	}
+
+	val, err := fn()
+	if err == nil {
+		f.val, f.done = val, true
+	}
+	return val, err
+}
+
 func uniqify[T comparable](s []T) []T {
 	seen := make(map[T]struct{}, len(s))
 	uniq := make([]T, 0, len(s))
-- 
2.43.0


From d50d580c603b133149371353cad44874f403c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 02/59] fix: verify an index for each keyring it is loaded with

An index loaded by one caller was handed to every later caller in the process,
also to one whose keyring does not hold the signing key or which, unlike the
first, has signature checking on.
---
 pkg/apk/index.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index a1db173..0238665 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -18,6 +18,8 @@ import (
 	"archive/tar"
 	"bytes"
 	"context"
+	"crypto/sha256"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"io"
@@ -26,6 +28,7 @@ import (
 	"net/url"
 	"os"
 	"regexp"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -59,14 +62,17 @@ type indexCache struct {
 	sync.Mutex
 	modtimes map[string]time.Time
 
-	// repoBase -> indexResult
+	// url and verification key -> indexResult
 	indexes sync.Map
 }
 
 func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte, arch string, opts *indexOpts) (*APKIndex, error) {
+	// What one caller accepts, another with other keys or options might not.
+	key := u + " " + verificationKey(u, keys, arch, opts)
+
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
 		// We don't want remote indexes to change while we're running.
-		return i.flights.do(ctx, u, func() (*APKIndex, error) {
+		return i.flights.do(ctx, key, func() (*APKIndex, error) {
 			return getRepositoryIndex(ctx, u, keys, arch, opts)
 		})
 	}
@@ -81,18 +87,18 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 	}
 
 	mod := stat.ModTime()
-	before, ok := i.modtimes[u]
+	before, ok := i.modtimes[key]
 	if !ok || mod.After(before) {
 		// If this is the first time or it has changed since the last time...
 		idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-		i.indexes.Store(u, indexResult{
+		i.indexes.Store(key, indexResult{
 			idx: idx,
 			err: err,
 		})
-		i.modtimes[u] = mod
+		i.modtimes[key] = mod
 	}
 
-	v, ok := i.indexes.Load(u)
+	v, ok := i.indexes.Load(key)
 	if !ok {
 		asURL, _ := url.Parse(u)
 		panic(fmt.Errorf("did not see index %q after writing it", asURL.Redacted()))
@@ -102,6 +108,26 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 	return result.idx, result.err
 }
 
+// verificationKey identifies how the signature of an index gets verified: not at all, or with which keys.
+func verificationKey(u string, keys map[string][]byte, arch string, opts *indexOpts) string {
+	if !shouldCheckSignatureForIndex(u, arch, opts) {
+		return "unverified"
+	}
+
+	names := make([]string, 0, len(keys))
+	for name := range keys {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	h := sha256.New()
+	for _, name := range names {
+		fmt.Fprintf(h, "%q %d ", name, len(keys[name]))
+		h.Write(keys[name])
+	}
+	return hex.EncodeToString(h.Sum(nil))
+}
+
 // IndexURL full URL to the index file for the given repo and arch
 func IndexURL(repo, arch string) string {
 	return fmt.Sprintf("%s/%s/%s", repo, arch, indexFilename)
-- 
2.43.0


From 5cbae7422cb565379456a08cae50b341ef5a0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 03/59] fix: reload a local index whenever it changed or failed
 to load

A local index replaced by a file with an older timestamp was never read again,
a failed read was remembered until the next change, and an index that could
not be examined was treated as one that does not exist.
---
 pkg/apk/index.go | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 0238665..2a4bee9 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -49,11 +49,6 @@ var globalIndexCache = &indexCache{
 	modtimes: map[string]time.Time{},
 }
 
-type indexResult struct {
-	idx *APKIndex
-	err error
-}
-
 type indexCache struct {
 	// For remote indexes.
 	flights flights[*APKIndex]
@@ -62,7 +57,7 @@ type indexCache struct {
 	sync.Mutex
 	modtimes map[string]time.Time
 
-	// url and verification key -> indexResult
+	// url and verification key -> *APKIndex
 	indexes sync.Map
 }
 
@@ -82,30 +77,26 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 
 	// We do expect local indexes to change, so we check modtimes.
 	stat, err := os.Stat(u)
-	if err != nil {
+	if errors.Is(err, fs.ErrNotExist) {
 		return nil, nil
+	} else if err != nil {
+		return nil, fmt.Errorf("failed to stat repository index: %w", err)
 	}
 
 	mod := stat.ModTime()
-	before, ok := i.modtimes[key]
-	if !ok || mod.After(before) {
-		// If this is the first time or it has changed since the last time...
-		idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-		i.indexes.Store(key, indexResult{
-			idx: idx,
-			err: err,
-		})
-		i.modtimes[key] = mod
+	if v, ok := i.indexes.Load(key); ok && mod.Equal(i.modtimes[key]) {
+		return v.(*APKIndex), nil
 	}
 
-	v, ok := i.indexes.Load(key)
-	if !ok {
-		asURL, _ := url.Parse(u)
-		panic(fmt.Errorf("did not see index %q after writing it", asURL.Redacted()))
+	// If this is the first time or it has changed since the last time...
+	idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
+	if err != nil || idx == nil {
+		return nil, err
 	}
-	result := v.(indexResult)
+	i.indexes.Store(key, idx)
+	i.modtimes[key] = mod
 
-	return result.idx, result.err
+	return idx, nil
 }
 
 // verificationKey identifies how the signature of an index gets verified: not at all, or with which keys.
-- 
2.43.0


From 4b3764f3f1b4d9f4d36d862c321e0bd3bc826195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 04/59] fix: rebuild the uncompressed package data in the cache
 atomically

A process that was killed, failed or was still writing left a partial tar file
under its final name, and every later install took it for the whole package.
---
 pkg/expandapk/expandapk.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 5f4fc4f..9861d5d 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -119,18 +119,32 @@ func (a *APKExpanded) PackageData() (*os.File, error) {
 		return nil, fmt.Errorf("parsing %q: %w", a.PackageFile, err)
 	}
 
-	uf, err = os.Create(a.TarFile)
+	// Other users of the cache must not see this file until it is complete.
+	uf, err = os.CreateTemp(filepath.Dir(a.TarFile), "*.tmp")
 	if err != nil {
 		return nil, fmt.Errorf("opening tar file %q: %w", a.TarFile, err)
 	}
 
-	buf := make([]byte, bufSize)
-	if _, err := io.CopyBuffer(uf, zr, buf); err != nil {
-		return nil, fmt.Errorf("decompressing %q: %w", a.PackageFile, err)
-	}
+	if err := func() error {
+		defer uf.Close()
+
+		buf := make([]byte, bufSize)
+		if _, err := io.CopyBuffer(uf, zr, buf); err != nil {
+			return fmt.Errorf("decompressing %q: %w", a.PackageFile, err)
+		}
 
-	if err := uf.Close(); err != nil {
-		return nil, fmt.Errorf("closing %q: %w", a.TarFile, err)
+		if err := uf.Chmod(0o644); err != nil {
+			return err
+		}
+
+		if err := uf.Close(); err != nil {
+			return fmt.Errorf("closing %q: %w", a.TarFile, err)
+		}
+
+		return os.Rename(uf.Name(), a.TarFile)
+	}(); err != nil {
+		os.Remove(uf.Name())
+		return nil, err
 	}
 
 	return os.Open(a.TarFile)
-- 
2.43.0


From d414db6da3bdbea1416bc3d9ad6d8fb5f165354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 05/59] fix: reject a signed package that ends before its data
 section

Its signature section was taken for the control section and its control
section for the data.
---
 pkg/expandapk/expandapk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 9861d5d..119ca83 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -435,6 +435,10 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 	}
 
 	numGzipStreams := len(gzipStreams)
+	if numGzipStreams != sw.maxStreams {
+		// A signed package without its data must not pass for an unsigned one.
+		return nil, fmt.Errorf("apk ended after %d of %d streams: %w", numGzipStreams, sw.maxStreams, io.ErrUnexpectedEOF)
+	}
 
 	// Calculate the total size of the apk (combo of all streams)
 	totalSize := int64(0)
-- 
2.43.0


From e4aa5c15a7073c113f67fe0d8d4e857f4d6cefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 06/59] fix: do not report a package whose control section
 never arrived

A download that ended after the signature resolved successfully without any
hash, and so did the data section of every unsigned package.
---
 pkg/apk/resolveapk.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pkg/apk/resolveapk.go b/pkg/apk/resolveapk.go
index 3c4dcb2..9a00d92 100644
--- a/pkg/apk/resolveapk.go
+++ b/pkg/apk/resolveapk.go
@@ -3,6 +3,7 @@ package apk
 
 import (
 	"archive/tar"
+	"bytes"
 	"context"
 	"crypto/sha1"
 	"encoding/hex"
@@ -101,19 +102,33 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 		}
 		gzi.Multistream(false)
 
+		if streamId > controlIdx {
+			gzi.Close()
+			break
+		}
+
+		section, err := io.ReadAll(gzi)
+		if err != nil {
+			return nil, fmt.Errorf("ResolveApk error 2: %w", err)
+		}
+		hashes[streamId] = h.Sum(nil)
+		gzipStreamSizes[streamId] = cr.bytesWritten
+
 		if streamId == 0 {
-			tr := tar.NewReader(gzi)
+			tr := tar.NewReader(bytes.NewReader(section))
 			hdr, err := tr.Next()
 			if err != nil {
-				return nil, fmt.Errorf("ResolveApk error 1: %v", err)
+				return nil, fmt.Errorf("ResolveApk error 1: %w", err)
 			}
 			if strings.HasPrefix(hdr.Name, ".SIGN.") {
 				maxStreams = 3
 				controlIdx = 1
 				signed = true
 			}
-		} else if controlIdx == streamId {
-			mapping, err := controlValue(gzi, "datahash", "size")
+		}
+
+		if controlIdx == streamId {
+			mapping, err := controlValue(bytes.NewReader(section), "datahash", "size")
 			if err != nil {
 				return nil, fmt.Errorf("reading datahash and size from control: %w", err)
 			}
@@ -139,21 +154,13 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 			}
 		}
 
-		if streamId <= controlIdx {
-			if _, err := io.Copy(io.Discard, gzi); err != nil {
-				return nil, fmt.Errorf("ResolveApk error 2: %v", err)
-			}
-
-			hashes[streamId] = h.Sum(nil)
-			gzipStreamSizes[streamId] = cr.bytesWritten
-		} else {
-			gzi.Close()
-			break
-		}
-
 		streamId++
 	}
 
+	if streamId <= controlIdx {
+		return nil, fmt.Errorf("apk ended before its control section: %w", io.ErrUnexpectedEOF)
+	}
+
 	resolved := &APKResolved{
 		SignatureSize: 0,
 		ControlSize:   gzipStreamSizes[controlIdx],
-- 
2.43.0


From 7d08c5b6f4a8e158ba08b4321a0113033bbda737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 07/59] fix: close package downloads after calculating the
 world

---
 pkg/apk/implementation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index c9627ce..e4aaf22 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -503,6 +503,7 @@ func (a *APK) CalculateWorld(ctx context.Context, allpkgs []*RepositoryPackage)
 			if err != nil {
 				return fmt.Errorf("fetching %s: %w", pkg.Name, err)
 			}
+			defer r.Close()
 			res, err := ResolveApk(gctx, r)
 			if err != nil {
 				return fmt.Errorf("resolving %s: %w", pkg.Name, err)
-- 
2.43.0


From 1ea087201131d83b3cbba6dc27d63b03560314be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 08/59] fix: remove expanded packages that do not get installed

A failed expansion, a failed move to the cache and every package already
expanded when an install failed or skipped it left their temporary directory
behind.
---
 pkg/apk/implementation.go  | 11 +++++++++++
 pkg/apk/install.go         |  1 +
 pkg/expandapk/expandapk.go |  7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index e4aaf22..e5509d5 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -594,6 +594,14 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 	g.SetLimit(jobs + 1)
 
 	expanded := make([]*expandapk.APKExpanded, len(allpkgs))
+	defer func() {
+		// Clean up after packages we did not get around to install.
+		for _, exp := range expanded {
+			if exp != nil {
+				exp.Close()
+			}
+		}
+	}()
 
 	// Track what files were installed by which packages so we can deduplicate in idb.
 	allFiles := make([][]tar.Header, len(allpkgs))
@@ -976,6 +984,9 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 		return exp, nil
 	}
 
+	// Once everything has moved to the cache (or failed to), we don't need the tempdir.
+	defer exp.Close()
+
 	return a.cachePackage(ctx, pkg, exp, cacheDir)
 }
 
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index b1daadd..7bc844a 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -93,6 +93,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		if err != nil {
 			return false, fmt.Errorf("error creating temporary file: %w", err)
 		}
+		defer f.Close()
 
 		if _, err := io.Copy(f, tee); err != nil {
 			return false, fmt.Errorf("error copying file %s: %w", header.Name, err)
diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 119ca83..bbb67d5 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -347,6 +347,12 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 	if err != nil {
 		return nil, err
 	}
+	done := false
+	defer func() {
+		if !done {
+			os.RemoveAll(dir)
+		}
+	}()
 
 	sw, err := newExpandApkWriter(dir, "stream", "tar.gz")
 	if err != nil {
@@ -502,6 +508,7 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		return nil, fmt.Errorf("indexing %q: %w", expanded.TarFile, err)
 	}
 
+	done = true
 	return &expanded, nil
 }
 
-- 
2.43.0


From 0e1df769055eb6fc361129d6f5eda0be89cb769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 09/59] fix: do not keep a cached response that was not written
 completely

A failed close went unnoticed and published a short file; other failures left
the temporary file in the cache, where offline mode picks it up.
---
 pkg/apk/cache.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 40abbb9..d785819 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -255,8 +255,8 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 	if err != nil {
 		return "", err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != 200 {
-		resp.Body.Close()
 		return "", fmt.Errorf("unexpected status: %s", resp.Status)
 	}
 
@@ -278,21 +278,24 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 	}
 	if err := func() error {
 		defer tmp.Close()
-		defer resp.Body.Close()
 		if _, err := io.Copy(tmp, resp.Body); err != nil {
 			return fmt.Errorf("unable to write to cache file: %w", err)
 		}
+		if err := tmp.Close(); err != nil {
+			return fmt.Errorf("unable to write to cache file: %w", err)
+		}
+
+		// Now that we have the file has been written, rename to atomically populate
+		// the cache
+		if err := os.Rename(tmp.Name(), cacheFile); err != nil {
+			return fmt.Errorf("unable to populate cache: %w", err)
+		}
 		return nil
 	}(); err != nil {
+		os.Remove(tmp.Name())
 		return "", err
 	}
 
-	// Now that we have the file has been written, rename to atomically populate
-	// the cache
-	if err := os.Rename(tmp.Name(), cacheFile); err != nil {
-		return "", fmt.Errorf("unable to populate cache: %v", err)
-	}
-
 	return cacheFile, nil
 }
 
-- 
2.43.0


From 4a861e894982bb1eefeae4db5030f350de16745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 10/59] fix: keep cached responses of different addresses apart

All keys of a server shared one cache directory, so that a key was served with
the bytes of another one with the same etag, or of whichever was newest when
offline. An etag with slashes (a weak one, say) named a file in some other
directory, even outside of the cache.
---
 pkg/apk/cache.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index d785819..8369291 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -214,25 +214,28 @@ func (t *cacheTransport) RoundTrip(request *http.Request) (*http.Response, error
 	return globalEtagCache.get(t, request, cacheFile)
 }
 
+// cacheDirFromFile returns the directory that holds all the versions we have seen of one file.
 func cacheDirFromFile(cacheFile string) string {
 	if strings.HasSuffix(cacheFile, "APKINDEX.tar.gz") {
 		return filepath.Join(filepath.Dir(cacheFile), "APKINDEX")
 	}
 
-	return filepath.Dir(cacheFile)
+	return cacheFile
 }
 
-func cacheFileFromEtag(cacheFile, etag string) string {
-	cacheDir := filepath.Dir(cacheFile)
-	ext := ".etag"
-
+// cacheExtFromFile returns the extension of the versions of one file.
+func cacheExtFromFile(cacheFile string) string {
 	// Keep all the index files under APKINDEX/ with appropriate file extension.
 	if strings.HasSuffix(cacheFile, "APKINDEX.tar.gz") {
-		cacheDir = filepath.Join(cacheDir, "APKINDEX")
-		ext = ".tar.gz"
+		return ".tar.gz"
 	}
 
-	return filepath.Join(cacheDir, etag+ext)
+	return ".etag"
+}
+
+func cacheFileFromEtag(cacheFile, etag string) string {
+	// The etag comes from the server, don't let it name another directory.
+	return filepath.Join(cacheDirFromFile(cacheFile), url.QueryEscape(etag)+cacheExtFromFile(cacheFile))
 }
 
 func etagFromResponse(resp *http.Response) (string, bool) {
-- 
2.43.0


From fe3f38ca5af4e76d8d5c9df7e05ca3622607b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 11/59] fix: serve what the last online run used when offline

Offline mode picked the newest file whatever it was, also the temporary file of
a running or killed download, and, after the server went back to an older
version, a version it no longer offers.
---
 pkg/apk/cache.go | 67 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 8369291..632cdbc 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -18,11 +18,13 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/fs"
 	"net/http"
 	"net/url"
 	"os"
 	"path/filepath"
 	"strings"
+	"time"
 )
 
 // This is terrible but simpler than plumbing around a cache for now.
@@ -72,6 +74,17 @@ func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile stri
 		// file extension.
 		etagFile := cacheFileFromEtag(cacheFile, initialEtag)
 		if _, err := os.Stat(etagFile); err == nil {
+			// If the server went back to an older version, that is now the one to use offline.
+			newest, err := newestCached(cacheFile)
+			if err != nil {
+				return "", err
+			}
+			if newest == nil || newest.Name() != filepath.Base(etagFile) {
+				now := time.Now()
+				if err := os.Chtimes(etagFile, now, now); err != nil {
+					return "", err
+				}
+			}
 			return etagFile, nil
 		}
 
@@ -173,33 +186,16 @@ func (t *cacheTransport) RoundTrip(request *http.Request) (*http.Response, error
 	}
 
 	if t.offline {
-		cacheDir := cacheDirFromFile(cacheFile)
-		des, err := os.ReadDir(cacheDir)
-		if err != nil {
-			return nil, fmt.Errorf("listing %q for offline cache: %w", cacheDir, err)
-		}
-
-		if len(des) == 0 {
-			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)
-		}
-
-		newest, err := des[0].Info()
+		newest, err := newestCached(cacheFile)
 		if err != nil {
-			return nil, err
+			return nil, fmt.Errorf("listing %q for offline cache: %w", cacheDirFromFile(cacheFile), err)
 		}
 
-		for _, de := range des[1:] {
-			fi, err := de.Info()
-			if err != nil {
-				return nil, err
-			}
-
-			if fi.ModTime().After(newest.ModTime()) {
-				newest = fi
-			}
+		if newest == nil {
+			return nil, fmt.Errorf("no offline cached entries for %s", cacheDirFromFile(cacheFile))
 		}
 
-		f, err := os.Open(filepath.Join(cacheDir, newest.Name()))
+		f, err := os.Open(filepath.Join(cacheDirFromFile(cacheFile), newest.Name()))
 		if err != nil {
 			return nil, err
 		}
@@ -223,6 +219,33 @@ func cacheDirFromFile(cacheFile string) string {
 	return cacheFile
 }
 
+// newestCached returns the most recent of the versions we have cached of one file, nil if there are none.
+func newestCached(cacheFile string) (fs.FileInfo, error) {
+	des, err := os.ReadDir(cacheDirFromFile(cacheFile))
+	if err != nil {
+		return nil, err
+	}
+
+	var newest fs.FileInfo
+	for _, de := range des {
+		// Skip anything that is not a complete version, like temporary files of running downloads.
+		if !strings.HasSuffix(de.Name(), cacheExtFromFile(cacheFile)) {
+			continue
+		}
+
+		fi, err := de.Info()
+		if err != nil {
+			return nil, err
+		}
+
+		if newest == nil || fi.ModTime().After(newest.ModTime()) {
+			newest = fi
+		}
+	}
+
+	return newest, nil
+}
+
 // cacheExtFromFile returns the extension of the versions of one file.
 func cacheExtFromFile(cacheFile string) string {
 	// Keep all the index files under APKINDEX/ with appropriate file extension.
-- 
2.43.0


From a2c2b01d325aa570c621909eca9f090cb2d1ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 12/59] fix: store only complete release keys

An error page was stored as a key, and a key shorter than the file it replaced
kept the tail of the old one.
---
 pkg/apk/implementation.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index e5509d5..e1b66e6 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -769,18 +769,21 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 			return fmt.Errorf("failed to fetch alpine key %s: %w", u, err)
 		}
 		defer res.Body.Close()
+		if res.StatusCode != http.StatusOK {
+			return fmt.Errorf("unable to get alpine key at %s: %v", u, res.Status)
+		}
+		data, err := io.ReadAll(res.Body)
+		if err != nil {
+			return fmt.Errorf("failed to read alpine key %s: %w", u, err)
+		}
 		basefilenameEscape := filepath.Base(u)
 		basefilename, err := url.PathUnescape(basefilenameEscape)
 		if err != nil {
 			return fmt.Errorf("failed to unescape key filename %s: %w", basefilenameEscape, err)
 		}
 		filename := filepath.Join(keysDirPath, basefilename)
-		f, err := a.fs.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0o644)
-		if err != nil {
-			return fmt.Errorf("failed to open key file %s: %w", filename, err)
-		}
-		defer f.Close()
-		if _, err := io.Copy(f, res.Body); err != nil {
+		// #nosec G306 -- apk keyring must be publicly readable
+		if err := a.fs.WriteFile(filename, data, 0o644); err != nil {
 			return fmt.Errorf("failed to write key file %s: %w", filename, err)
 		}
 	}
-- 
2.43.0


From 6417c395975848c258fca8f00b90077b2fd28826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 13/59] fix: report errors while reading the installed database
 and repositories

A read error or an over-long line ended the list early, as if the rest of the
packages or repositories were not there, and a line of one character panicked.
---
 pkg/apk/installed.go | 8 +++++++-
 pkg/apk/repo.go      | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 141a763..dec88b4 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -239,6 +239,9 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 
 	indexScanner := bufio.NewScanner(installed)
 
+	// Dependency and provides lines can be longer than the default of 64KB, see ParsePackageIndex.
+	indexScanner.Buffer(make([]byte, 16*1024), 1024*1024)
+
 	pkg := &InstalledPackage{}
 	linenr := 1
 	var lastDir, lastFile *tar.Header
@@ -255,7 +258,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
@@ -373,6 +376,9 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 
 		linenr++
 	}
+	if err := indexScanner.Err(); err != nil {
+		return nil, fmt.Errorf("reading line %d: %w", linenr, err)
+	}
 
 	return packages, nil
 }
diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index b70f1af..2e98812 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -127,7 +127,10 @@ func (a *APK) GetRepositories() (repos []string, err error) {
 	for scanner.Scan() {
 		repos = append(repos, scanner.Text())
 	}
-	return
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("could not read repositories file at %s: %w", reposFilePath, err)
+	}
+	return repos, nil
 }
 
 // GetRepositoryIndexes returns the indexes for the repositories in the specified root.
-- 
2.43.0


From 835499fa2717233fc1939573a430918e54f1e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 14/59] fix: read file owners and modes back from the installed
 database

They were set on copies of the entries that get returned.
---
 pkg/apk/installed.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index dec88b4..6798f98 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -327,14 +327,14 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 				pkg.Checksum = checksum
 			}
 		case "F":
-			lastDir = &tar.Header{
+			pkg.Files = append(pkg.Files, tar.Header{
 				Name:     val,
 				Mode:     0o755,
 				Uid:      0,
 				Gid:      0,
 				Typeflag: tar.TypeDir,
-			}
-			pkg.Files = append(pkg.Files, *lastDir)
+			})
+			lastDir = &pkg.Files[len(pkg.Files)-1]
 			lastFile = nil
 		case "M":
 			// directory perms if not 0o755
@@ -353,13 +353,13 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			if lastDir != nil {
 				fullpath, _ = sanitizeArchivePath(lastDir.Name, val)
 			}
-			lastFile = &tar.Header{
+			pkg.Files = append(pkg.Files, tar.Header{
 				Name: fullpath,
 				Mode: 0o644,
 				Uid:  0,
 				Gid:  0,
-			}
-			pkg.Files = append(pkg.Files, *lastFile)
+			})
+			lastFile = &pkg.Files[len(pkg.Files)-1]
 		case "a":
 			// file perms if not 0o644
 			if lastFile == nil {
-- 
2.43.0


From 9dca4f1eb725907d47288de180781b78271973dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 15/59] fix: report files and database records that were not
 written completely

Failures to close an installed file, the installed database, scripts.tar or
triggers, and to write the end of scripts.tar, went unnoticed. Initialising a
root again kept the tail of its old scripts.tar.
---
 pkg/apk/implementation.go | 10 +++++++---
 pkg/apk/install.go        |  3 +++
 pkg/apk/installed.go      |  9 ++++++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index e1b66e6..91eeda8 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -286,15 +286,19 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 
 	// add scripts.tar with nothing in it
 	scriptsTarPerms := 0o644
-	TarFile, err := a.fs.OpenFile(scriptsFilePath, os.O_CREATE|os.O_WRONLY, fs.FileMode(scriptsTarPerms))
+	TarFile, err := a.fs.OpenFile(scriptsFilePath, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, fs.FileMode(scriptsTarPerms))
 	if err != nil {
 		return fmt.Errorf("could not create tarball file '%s', got error '%w'", scriptsFilePath, err)
 	}
 	defer TarFile.Close()
-	tarWriter := tar.NewWriter(TarFile)
-	defer tarWriter.Close()
 
 	// nothing to add to it; scripts.tar should be empty
+	if err := tar.NewWriter(TarFile).Close(); err != nil {
+		return fmt.Errorf("could not write tarball file '%s': %w", scriptsFilePath, err)
+	}
+	if err := TarFile.Close(); err != nil {
+		return fmt.Errorf("could not write tarball file '%s': %w", scriptsFilePath, err)
+	}
 
 	// get the alpine-keys base keys for our usage
 	if len(alpineVersions) > 0 {
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 7bc844a..6879fe5 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -63,6 +63,9 @@ func (a *APK) writeOneFile(header *tar.Header, r io.Reader, allowOverwrite bool)
 	if _, err := io.CopyN(f, r, header.Size); err != nil {
 		return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
 	}
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
+	}
 	// override one of the
 	return nil
 }
diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 6798f98..debbdc9 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -96,7 +96,7 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 	if _, err := installedFile.Write(b); err != nil {
 		return err
 	}
-	return nil
+	return installedFile.Close()
 }
 
 // isInstalledPackage check if a specific package is installed
@@ -174,7 +174,10 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 			return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
 		}
 	}
-	return nil
+	if err := tw.Close(); err != nil {
+		return fmt.Errorf("unable to finish scripts file %s: %w", scriptsFilePath, err)
+	}
+	return scripts.Close()
 }
 
 // readScriptsTar returns a reader for the current scripts.tar. It is up to the caller to close it.
@@ -221,7 +224,7 @@ func (a *APK) updateTriggers(pkg *Package, controlTarGz io.Reader) error {
 		}
 	}
 
-	return nil
+	return triggers.Close()
 }
 
 // readTriggers returns a reader for the current triggers. It is up to the caller to close it.
-- 
2.43.0


From 8bb0ec2b697dc33227f7c5a20bb0ca16f94447b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 16/59] fix: report failures to write the end of an archive or
 to read its source

A failed write of the end of a tar or gzip stream, an unreadable root directory
and an unreadable etc/passwd or etc/group gave an incomplete archive and no
error.
---
 pkg/tarball/write.go | 45 ++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/pkg/tarball/write.go b/pkg/tarball/write.go
index 55d0d09..808be11 100644
--- a/pkg/tarball/write.go
+++ b/pkg/tarball/write.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"crypto/sha1" //nolint:gosec
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
@@ -92,15 +93,15 @@ func (c *Context) writeTar(ctx context.Context, tw *tar.Writer, fsys fs.FS, user
 		if err := ctx.Err(); err != nil {
 			return err
 		}
+		if err != nil {
+			return err
+		}
+
 		// skip the root path, superfluous
 		if path == "." {
 			return nil
 		}
 
-		if err != nil {
-			return err
-		}
-
 		info, err := d.Info()
 		if err != nil {
 			return err
@@ -300,7 +301,19 @@ func (c *Context) WriteTargz(ctx context.Context, dst io.Writer, src fs.FS, user
 	gzw := gzip.NewWriter(dst)
 	defer gzw.Close()
 
-	return c.WriteTar(ctx, gzw, src, userinfofs)
+	if err := c.WriteTar(ctx, gzw, src, userinfofs); err != nil {
+		return err
+	}
+	if err := gzw.Close(); err != nil {
+		return fmt.Errorf("finishing gzip stream: %w", err)
+	}
+	return nil
+}
+
+// readFailed tells a file we failed to read from one that is not there or that we could not parse.
+func readFailed(err error) bool {
+	var perr *fs.PathError
+	return errors.As(err, &perr) && !errors.Is(err, fs.ErrNotExist) && !errors.Is(err, syscall.ENOTDIR)
 }
 
 // WriteTar writes a tarball to the provided io.Writer from the provided fs.FS.
@@ -313,15 +326,16 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 	defer span.End()
 
 	tw := tar.NewWriter(dst)
-	if !c.SkipClose {
-		defer tw.Close()
-	} else {
-		defer tw.Flush()
-	}
 
 	// get the uname and gname maps
-	usersFile, _ := passwd.ReadUserFile(userinfosrc, "etc/passwd")
-	groupsFile, _ := passwd.ReadGroupFile(userinfosrc, "etc/group")
+	usersFile, err := passwd.ReadUserFile(userinfosrc, "etc/passwd")
+	if readFailed(err) {
+		return fmt.Errorf("reading users: %w", err)
+	}
+	groupsFile, err := passwd.ReadGroupFile(userinfosrc, "etc/group")
+	if readFailed(err) {
+		return fmt.Errorf("reading groups: %w", err)
+	}
 	users := map[int]string{}
 	groups := map[int]string{}
 	for _, u := range usersFile.Entries {
@@ -334,5 +348,12 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 		return fmt.Errorf("writing TAR archive failed: %w", err)
 	}
 
+	finish := tw.Close
+	if c.SkipClose {
+		finish = tw.Flush
+	}
+	if err := finish(); err != nil {
+		return fmt.Errorf("finishing TAR archive failed: %w", err)
+	}
 	return nil
 }
-- 
2.43.0


From 47b47d2f3b1c8ced8cd1a3b4f6ea0af6a302a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 17/59] fix: report a failure to close a user or group file

---
 pkg/passwd/group.go  | 5 ++++-
 pkg/passwd/passwd.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index 5021f4d..1567a63 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -103,7 +103,10 @@ func (gf *GroupFile) WriteFile(fsys apkfs.FullFS, filePath string) error {
 	}
 	defer file.Close()
 
-	return gf.Write(file)
+	if err := gf.Write(file); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write writes an /etc/passwd file into an io.Writer.
diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 0a4a667..1b395a9 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -107,7 +107,10 @@ func (uf *UserFile) WriteFile(filePath string) error {
 	}
 	defer file.Close()
 
-	return uf.Write(file)
+	if err := uf.Write(file); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write writes an /etc/passwd file into an io.Writer.
-- 
2.43.0


From af404cd5e8fa461228283ab0240f393b4ec4a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 18/59] fix: replace an index by its signed version in one step

The index was truncated before the signed one was written: a full disk or a
killed process lost it, and a failed close went unnoticed.
---
 pkg/signature/sign.go | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 56852e3..11515b7 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -82,18 +82,43 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 		return fmt.Errorf("unable to write signature tarball: %w", err)
 	}
 
-	idx, err := os.Create(indexFile)
+	// Replace the index in one step, so that we don't lose it if we fail to write the signed one.
+	target, err := filepath.EvalSymlinks(indexFile)
+	if err != nil {
+		return fmt.Errorf("unable to find index for writing: %w", err)
+	}
+	fi, err := os.Stat(target)
+	if err != nil {
+		return fmt.Errorf("unable to stat index for writing: %w", err)
+	}
+	idx, err := os.CreateTemp(filepath.Dir(target), filepath.Base(target)+".*.tmp")
 	if err != nil {
 		return fmt.Errorf("unable to open index for writing: %w", err)
 	}
-	defer idx.Close()
 
-	if _, err := io.Copy(idx, &sigBuffer); err != nil {
-		return fmt.Errorf("unable to write index signature: %w", err)
-	}
+	if err := func() error {
+		defer idx.Close()
+
+		if _, err := io.Copy(idx, &sigBuffer); err != nil {
+			return fmt.Errorf("unable to write index signature: %w", err)
+		}
 
-	if _, err := idx.Write(indexData); err != nil {
-		return fmt.Errorf("unable to write index data: %w", err)
+		if _, err := idx.Write(indexData); err != nil {
+			return fmt.Errorf("unable to write index data: %w", err)
+		}
+
+		if err := idx.Chmod(fi.Mode().Perm()); err != nil {
+			return fmt.Errorf("unable to set index permissions: %w", err)
+		}
+
+		if err := idx.Close(); err != nil {
+			return fmt.Errorf("unable to write index: %w", err)
+		}
+
+		return os.Rename(idx.Name(), target)
+	}(); err != nil {
+		os.Remove(idx.Name())
+		return err
 	}
 
 	log.Infof("signed index %s with key %s", indexFile, signingKey)
-- 
2.43.0


From 1e920943768190367255ec30184187abbeb1c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 19/59] fix: make operations on the in-memory file system
 atomic

Resolving a path and acting on what it led to were separate steps under
per-node locks, some without any lock at all, so concurrent calls could
race on the maps and act on files that were no longer there.
---
 pkg/fs/memfs.go | 135 ++++++++++++++++++++++++++++--------------------
 1 file changed, 78 insertions(+), 57 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index acce239..9b84025 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -16,7 +16,6 @@ package fs
 
 import (
 	"archive/tar"
-	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -40,6 +39,9 @@ const (
 
 type memFS struct {
 	tree *node
+	// mu guards the whole tree: resolving a path and acting on what it leads to has to happen in one step,
+	// and so does acting on two paths.
+	mu sync.Mutex
 }
 
 func NewMemFS() FullFS {
@@ -55,7 +57,7 @@ func NewMemFS() FullFS {
 }
 
 // getNode returns the node for the given path. If the path is not found, it
-// returns an error.
+// returns an error. The caller holds m.mu.
 func (m *memFS) getNode(path string) (*node, error) {
 	return m.getNodeCountLinks(path, 0)
 }
@@ -74,11 +76,7 @@ func (m *memFS) getNodeCountLinks(path string, linkDepth int) (*node, error) {
 			return nil, os.ErrNotExist
 		}
 		var ok bool
-		node.mu.Lock()
 		childNode, ok := node.children[part]
-		// immediately unlock, no need to wait for defer. This is *really* important in the
-		// case of symlinks below
-		node.mu.Unlock()
 		if !ok {
 			return nil, os.ErrNotExist
 		}
@@ -97,9 +95,6 @@ func (m *memFS) getNodeCountLinks(path string, linkDepth int) (*node, error) {
 				linkTarget = filepath.Join(strings.Join(traversed, pathSep), linkTarget)
 			}
 			// now we have the absolute path, we can get the node
-			// but that absolute path can cause us to try and hit something that is already locked
-			// and since we are recursing, it will not get freed until we return
-			// leading to a deadlock race condition
 			targetNode, err := m.getNodeCountLinks(linkTarget, newDepth)
 			if err != nil {
 				return nil, err
@@ -112,6 +107,8 @@ func (m *memFS) getNodeCountLinks(path string, linkDepth int) (*node, error) {
 	return node, nil
 }
 func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	// first see if the parent exists
 	parent := filepath.Dir(path)
 	anode, err := m.getNode(parent)
@@ -122,8 +119,6 @@ func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
 		return fmt.Errorf("parent is not a directory")
 	}
 	// see if it exists
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
 	if _, ok := anode.children[filepath.Base(path)]; ok {
 		return os.ErrExist
 	}
@@ -141,6 +136,8 @@ func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
 }
 
 func (m *memFS) Stat(path string) (fs.FileInfo, error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return nil, err
@@ -156,6 +153,8 @@ func (m *memFS) Stat(path string) (fs.FileInfo, error) {
 }
 
 func (m *memFS) Lstat(path string) (fs.FileInfo, error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return nil, err
@@ -164,6 +163,8 @@ func (m *memFS) Lstat(path string) (fs.FileInfo, error) {
 }
 
 func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	parts := strings.Split(path, pathSep)
 	traversed := make([]string, 0)
 	anode := m.tree
@@ -175,7 +176,6 @@ func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 			anode.children = map[string]*node{}
 		}
 		var ok bool
-		anode.mu.Lock()
 		newnode, ok := anode.children[part]
 		if !ok {
 			newnode = &node{
@@ -189,7 +189,6 @@ func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 			}
 			anode.children[part] = newnode
 		}
-		anode.mu.Unlock()
 		// what if it is a symlink?
 		if newnode.mode&os.ModeSymlink != 0 {
 			linkTarget := newnode.linkTarget
@@ -217,9 +216,17 @@ func (m *memFS) Open(name string) (fs.File, error) {
 }
 
 func (m *memFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
-	return m.openFile(name, flag, perm, 0)
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	f, err := m.openFile(name, flag, perm, 0)
+	if err != nil {
+		return nil, err
+	}
+	return f, nil
 }
-func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int) (File, error) {
+
+// openFile opens a file. The caller holds m.mu.
+func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int) (*memFile, error) {
 	parent := filepath.Dir(name)
 	base := filepath.Base(name)
 	parentAnode, err := m.getNode(parent)
@@ -232,14 +239,11 @@ func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int)
 	if parentAnode.children == nil {
 		parentAnode.children = map[string]*node{}
 	}
-	parentAnode.mu.Lock()
 	anode, ok := parentAnode.children[base]
 	if !ok && flag&os.O_CREATE == 0 {
-		parentAnode.mu.Unlock()
 		return nil, os.ErrNotExist
 	}
 	if anode != nil && anode.dir {
-		parentAnode.mu.Unlock()
 		return nil, fmt.Errorf("is a directory")
 	}
 	if flag&os.O_CREATE != 0 && !ok {
@@ -254,7 +258,6 @@ func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int)
 		}
 		parentAnode.children[base] = anode
 	}
-	parentAnode.mu.Unlock()
 	// what if it is a symlink? Follow the symlink
 	if anode.mode&os.ModeSymlink != 0 {
 		localCount := linkCount + 1
@@ -272,31 +275,29 @@ func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int)
 }
 
 func (m *memFS) ReadFile(name string) ([]byte, error) {
-	f, err := m.OpenFile(name, os.O_RDONLY, 0o644)
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	f, err := m.openFile(name, os.O_RDONLY, 0o644, 0)
 	if err != nil {
 		return nil, err
 	}
-	defer f.Close()
-	b := bytes.NewBuffer(nil)
-	if _, err := io.Copy(b, f); err != nil {
-		return nil, err
-	}
-	return b.Bytes(), nil
+	return append([]byte{}, f.node.data...), nil
 }
 
 func (m *memFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
-	f, err := m.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, mode)
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	f, err := m.openFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, mode, 0)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-	if _, err := io.Copy(f, bytes.NewBuffer(b)); err != nil {
-		return err
-	}
+	f.node.data = append([]byte{}, b...)
 	return nil
 }
 
 func (m *memFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	anode, err := m.getNode(name)
 	if err != nil {
 		return nil, err
@@ -320,14 +321,14 @@ func (m *memFS) OpenReaderAt(name string) (File, error) {
 }
 
 func (m *memFS) Mknod(path string, mode uint32, dev int) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	parent := filepath.Dir(path)
 	base := filepath.Base(path)
 	anode, err := m.getNode(parent)
 	if err != nil {
 		return err
 	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
 	if _, ok := anode.children[base]; ok {
 		return os.ErrExist
 	}
@@ -345,14 +346,14 @@ func (m *memFS) Mknod(path string, mode uint32, dev int) error {
 }
 
 func (m *memFS) Readnod(path string) (dev int, err error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	parent := filepath.Dir(path)
 	base := filepath.Base(path)
 	parentNode, err := m.getNode(parent)
 	if err != nil {
 		return 0, err
 	}
-	parentNode.mu.Lock()
-	defer parentNode.mu.Unlock()
 	anode, ok := parentNode.children[base]
 	if !ok {
 		return 0, os.ErrNotExist
@@ -364,6 +365,8 @@ func (m *memFS) Readnod(path string) (dev int, err error) {
 }
 
 func (m *memFS) Chmod(path string, perm fs.FileMode) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	anode, err := m.getNode(path)
 	if err != nil {
 		return err
@@ -373,6 +376,8 @@ func (m *memFS) Chmod(path string, perm fs.FileMode) error {
 	return nil
 }
 func (m *memFS) Chown(path string, uid, gid int) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	anode, err := m.getNode(path)
 	if err != nil {
 		return err
@@ -387,14 +392,14 @@ func (m *memFS) Create(name string) (File, error) {
 }
 
 func (m *memFS) Symlink(oldname, newname string) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	parent := filepath.Dir(newname)
 	base := filepath.Base(newname)
 	anode, err := m.getNode(parent)
 	if err != nil {
 		return err
 	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
 	if _, ok := anode.children[base]; ok {
 		return os.ErrExist
 	}
@@ -409,6 +414,8 @@ func (m *memFS) Symlink(oldname, newname string) error {
 }
 
 func (m *memFS) Link(oldname, newname string) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	parent := filepath.Dir(newname)
 	base := filepath.Base(newname)
 	anode, err := m.getNode(parent)
@@ -419,8 +426,6 @@ func (m *memFS) Link(oldname, newname string) error {
 	if err != nil {
 		return os.ErrNotExist
 	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
 	if _, ok := anode.children[base]; ok {
 		return os.ErrExist
 	}
@@ -430,14 +435,14 @@ func (m *memFS) Link(oldname, newname string) error {
 }
 
 func (m *memFS) Readlink(name string) (target string, err error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	parent := filepath.Dir(name)
 	base := filepath.Base(name)
 	parentNode, err := m.getNode(parent)
 	if err != nil {
 		return "", err
 	}
-	parentNode.mu.Lock()
-	defer parentNode.mu.Unlock()
 	anode, ok := parentNode.children[base]
 	if !ok {
 		return "", os.ErrNotExist
@@ -449,14 +454,14 @@ func (m *memFS) Readlink(name string) (target string, err error) {
 }
 
 func (m *memFS) Remove(name string) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	parent := filepath.Dir(name)
 	base := filepath.Base(name)
 	anode, err := m.getNode(parent)
 	if err != nil {
 		return err
 	}
-	anode.mu.Lock()
-	defer anode.mu.Unlock()
 	if _, ok := anode.children[base]; !ok {
 		return os.ErrNotExist
 	}
@@ -468,22 +473,22 @@ func (m *memFS) Remove(name string) error {
 }
 
 func (m *memFS) SetXattr(path string, attr string, data []byte) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return os.ErrNotExist
 	}
-	node.mu.Lock()
-	defer node.mu.Unlock()
 	node.xattrs[attr] = data
 	return nil
 }
 func (m *memFS) GetXattr(path string, attr string) ([]byte, error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return nil, os.ErrNotExist
 	}
-	node.mu.Lock()
-	defer node.mu.Unlock()
 	data, ok := node.xattrs[attr]
 	if !ok {
 		return nil, os.ErrNotExist
@@ -492,12 +497,12 @@ func (m *memFS) GetXattr(path string, attr string) ([]byte, error) {
 }
 
 func (m *memFS) RemoveXattr(path string, attr string) error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return os.ErrNotExist
 	}
-	node.mu.Lock()
-	defer node.mu.Unlock()
 	// RemoveXattr is meant to ensure it does not exist; if it does not exist already, that is fine
 	if _, ok := node.xattrs[attr]; !ok {
 		return nil
@@ -506,12 +511,12 @@ func (m *memFS) RemoveXattr(path string, attr string) error {
 	return nil
 }
 func (m *memFS) ListXattrs(path string) (map[string][]byte, error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	node, err := m.getNode(path)
 	if err != nil {
 		return nil, os.ErrNotExist
 	}
-	node.mu.Lock()
-	defer node.mu.Unlock()
 	// do not return the original, as someone might change it by accident.
 	// Return a copy
 	ret := make(map[string][]byte)
@@ -567,6 +572,8 @@ func (f *memFile) Read(b []byte) (int, error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
 	if f.offset >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
@@ -579,6 +586,8 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
 	if off >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
@@ -589,6 +598,8 @@ func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
 	switch whence {
 	case io.SeekStart:
 		f.offset = offset
@@ -609,6 +620,8 @@ func (f *memFile) Write(p []byte) (n int, err error) {
 	if f.openMode&os.O_APPEND != 0 && f.openMode&os.O_RDWR != 0 && f.openMode&os.O_WRONLY != 0 {
 		return 0, errors.New("file not opened in write mode")
 	}
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
 	if f.offset+int64(len(p)) > int64(len(f.node.data)) {
 		f.node.data = append(f.node.data[:f.offset], p...)
 	} else {
@@ -630,27 +643,35 @@ type node struct {
 	linkCount    int // extra links, so 0 means a single pointer. O-based, like most compuuter counting systems.
 	major, minor uint32
 	children     map[string]*node
-	mu           sync.Mutex
 	xattrs       map[string][]byte
 }
 
 func (n *node) fileInfo(name string) fs.FileInfo {
 	return &memFileInfo{
-		node: n,
-		name: name,
+		name:    name,
+		size:    int64(len(n.data)),
+		mode:    n.mode,
+		modTime: n.modTime,
+		dir:     n.dir,
+		uid:     n.uid,
+		gid:     n.gid,
 	}
 }
 
 type memFileInfo struct {
-	*node
-	name string
+	name     string
+	size     int64
+	mode     fs.FileMode
+	modTime  time.Time
+	dir      bool
+	uid, gid int
 }
 
 func (m *memFileInfo) Name() string {
 	return m.name
 }
 func (m *memFileInfo) Size() int64 {
-	return int64(len(m.data))
+	return m.size
 }
 func (m *memFileInfo) Mode() fs.FileMode {
 	return m.mode
-- 
2.43.0


From 5141ce7e0b36012863b36e882f2ea89c78c930d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 20/59] fix: install and cache only packages that match their
 index entry

Neither the control section's checksum from the index nor the data hash
that the control section names was ever compared with what was downloaded.
---
 pkg/apk/implementation.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 91eeda8..a43906a 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -986,6 +986,12 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 		return nil, fmt.Errorf("expanding %s: %w", pkg.PackageName(), err)
 	}
 
+	// Neither install nor cache anything but what the index promised.
+	if err := a.verifyPackage(pkg, exp); err != nil {
+		exp.Close()
+		return nil, fmt.Errorf("verifying %s: %w", pkg.PackageName(), err)
+	}
+
 	// If we don't have a cache, we're done.
 	if a.cache == nil {
 		return exp, nil
@@ -997,6 +1003,35 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 	return a.cachePackage(ctx, pkg, exp, cacheDir)
 }
 
+// verifyPackage checks that the control section of an expanded package is the one with the checksum that the
+// index has for it, and that the data section is the one that the control section names.
+func (a *APK) verifyPackage(pkg InstallablePackage, exp *expandapk.APKExpanded) error {
+	if chk, ok := strings.CutPrefix(pkg.ChecksumString(), "Q1"); ok && chk != "" {
+		want, err := base64.StdEncoding.DecodeString(chk)
+		if err != nil {
+			return fmt.Errorf("parsing checksum: %w", err)
+		}
+		if !bytes.Equal(want, exp.ControlHash) {
+			return fmt.Errorf("control section has checksum %x, want %x", exp.ControlHash, want)
+		}
+	}
+
+	control, err := exp.ControlData()
+	if err != nil {
+		return err
+	}
+	mapping, err := controlValue(bytes.NewReader(control), "datahash")
+	if err != nil {
+		return fmt.Errorf("reading datahash from control: %w", err)
+	}
+	for _, want := range mapping["datahash"] {
+		if got := hex.EncodeToString(exp.PackageHash); want != "" && got != want {
+			return fmt.Errorf("data section has hash %s, want %s", got, want)
+		}
+	}
+	return nil
+}
+
 func packageAsURI(pkg InstallablePackage) (uri.URI, error) {
 	u := pkg.URL()
 
-- 
2.43.0


From 05896b1fe8d3831c17d288121aa66e15729ee789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 21/59] fix: resume an interrupted download only where it
 stopped and only in the same version

---
 pkg/apk/transport.go | 91 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 16 deletions(-)

diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index 8f3585f..a8a73ef 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -54,6 +54,9 @@ type rangeRetryReader struct {
 
 	progress int64
 	total    int64
+
+	// What the first response said about the version of the resource it serves.
+	first http.Header
 }
 
 func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
@@ -62,7 +65,8 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		_ = r.body.Close()
 	}
 
-	req := r.req.WithContext(r.ctx)
+	// The caller's request must not change, so that it can be sent again.
+	req := r.req.Clone(r.ctx)
 
 	rangeHeader := fmt.Sprintf("bytes=%d-", r.progress)
 	if r.progress != 0 {
@@ -78,30 +82,85 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		return resp, nil
 	}
 
-	if r.total == 0 {
+	if err := r.accept(resp); err != nil {
+		resp.Body.Close()
+		err = fmt.Errorf("%s %s (Range: %s): %w", req.Method, req.URL.String(), rangeHeader, err)
+		if oerr != nil {
+			err = fmt.Errorf("retrying %w: %w", oerr, err)
+		}
+		return resp, err
+	}
+
+	r.body = resp.Body
+	resp.Body = r
+
+	return resp, nil
+}
+
+// accept checks that resp continues what has been read so far, and leaves its body at
+// the first byte that has not been read.
+func (r *rangeRetryReader) accept(resp *http.Response) error {
+	if resp.StatusCode != http.StatusOK && resp.StatusCode != http.StatusPartialContent {
+		return fmt.Errorf("unexpected status code: %d", resp.StatusCode)
+	}
+
+	if r.first == nil {
+		r.first = resp.Header.Clone()
+		if r.first == nil {
+			r.first = http.Header{}
+		}
 		r.total = resp.ContentLength
+		return nil
 	}
 
-	if resp.StatusCode == http.StatusOK {
-		// If the upstream doesn't support Range requests for some reason and only returns 200,
-		// we need to discard anything we've already Read().
-		if r.progress != 0 {
-			if _, err := io.CopyN(io.Discard, resp.Body, r.progress); err != nil {
-				return resp, err
-			}
+	// The resource may have been replaced since the first response: bytes of two versions
+	// must not be mixed.
+	for _, name := range []string{"Etag", "Last-Modified"} {
+		was, is := r.first.Get(name), resp.Header.Get(name)
+		if was == "" || is == "" {
+			continue
 		}
-	} else if resp.StatusCode != http.StatusPartialContent {
-		if oerr != nil {
-			return resp, fmt.Errorf("retrying %w: %s %s (Range: %s): unexpected status code: %d", oerr, req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+		if was != is {
+			return fmt.Errorf("%s changed from %q to %q", name, was, is)
 		}
+		break
+	}
 
-		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+	if resp.StatusCode == http.StatusPartialContent {
+		// Not every server says which part it sends.
+		contentRange := resp.Header.Get("Content-Range")
+		if contentRange == "" {
+			return nil
+		}
+		var start, end, total int64
+		if _, err := fmt.Sscanf(contentRange, "bytes %d-%d/", &start, &end); err != nil {
+			return fmt.Errorf("unexpected content range: %q", contentRange)
+		}
+		if start != r.progress {
+			return fmt.Errorf("unexpected content range: %q", contentRange)
+		}
+		if _, err := fmt.Sscanf(contentRange, "bytes %d-%d/%d", &start, &end, &total); err == nil {
+			if r.total > 0 && total != r.total {
+				return fmt.Errorf("size changed from %d to %d", r.total, total)
+			}
+		}
+		return nil
 	}
 
-	r.body = resp.Body
-	resp.Body = r
+	if r.total > 0 && resp.ContentLength > 0 && resp.ContentLength != r.total {
+		return fmt.Errorf("size changed from %d to %d", r.total, resp.ContentLength)
+	}
 
-	return resp, nil
+	// If the upstream doesn't support Range requests for some reason and only returns 200,
+	// we need to discard anything we've already Read().
+	if _, err := io.CopyN(io.Discard, resp.Body, r.progress); err != nil {
+		if errors.Is(err, io.EOF) {
+			// There is less of it than we have already Read().
+			err = io.ErrUnexpectedEOF
+		}
+		return err
+	}
+	return nil
 }
 
 func (r *rangeRetryReader) Read(p []byte) (n int, err error) {
-- 
2.43.0


From e51c0e4758fb0dd81ac36b3aa7de9cb1f742e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 22/59] fix: in-memory file system honours exclusive creation,
 append, link and offset semantics

---
 pkg/fs/memfs.go | 142 +++++++++++++++++++++++++++---------------------
 1 file changed, 80 insertions(+), 62 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 9b84025..82db805 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -59,53 +59,69 @@ func NewMemFS() FullFS {
 // getNode returns the node for the given path. If the path is not found, it
 // returns an error. The caller holds m.mu.
 func (m *memFS) getNode(path string) (*node, error) {
-	return m.getNodeCountLinks(path, 0)
+	node, _, err := m.resolve(path, 0)
+	return node, err
 }
-func (m *memFS) getNodeCountLinks(path string, linkDepth int) (*node, error) {
+
+// resolve returns the node for the given path, and the path to it that has no symlinks in it.
+// The caller holds m.mu.
+func (m *memFS) resolve(path string, linkDepth int) (*node, string, error) {
+	node := m.tree
 	if path == "/" || path == "." {
-		return m.tree, nil
+		return node, pathSep, nil
 	}
-	parts := strings.Split(path, pathSep)
-	node := m.tree
-	traversed := make([]string, 0)
-	for _, part := range parts {
+	canonical := pathSep
+	for _, part := range strings.Split(path, pathSep) {
 		if part == "" {
 			continue
 		}
 		if node.children == nil {
-			return nil, os.ErrNotExist
+			return nil, "", os.ErrNotExist
 		}
-		var ok bool
 		childNode, ok := node.children[part]
 		if !ok {
-			return nil, os.ErrNotExist
+			return nil, "", os.ErrNotExist
 		}
+		childReal := filepath.Join(canonical, part)
 		// what if it is a symlink?
 		if childNode.mode&os.ModeSymlink != 0 {
 			newDepth := linkDepth + 1
 			if newDepth > maxLinks {
-				return nil, fmt.Errorf("maximum symlink depth exceeded")
+				return nil, "", fmt.Errorf("maximum symlink depth exceeded")
 			}
-			// getNode requires working on the absolute path, so we just resolve the path to an absolute path,
-			// rather than struggling to clean up the path.
-			// But, we have to make sure that we set it relative to where we are currently, rather than the parent of the path.
+			// A relative target is relative to the directory that really holds the link.
 			// For example, /usr/lib64/foo/bar when /usr/lib64 -> lib, we want to resolve to /usr/lib rather than /usr/lib64/foo/lib
-			linkTarget := childNode.linkTarget
-			if !filepath.IsAbs(linkTarget) {
-				linkTarget = filepath.Join(strings.Join(traversed, pathSep), linkTarget)
-			}
-			// now we have the absolute path, we can get the node
-			targetNode, err := m.getNodeCountLinks(linkTarget, newDepth)
+			var err error
+			childNode, childReal, err = m.resolve(absTarget(canonical, childNode.linkTarget), newDepth)
 			if err != nil {
-				return nil, err
+				return nil, "", err
 			}
-			childNode = targetNode
 		}
-		node = childNode
-		traversed = append(traversed, part)
+		node, canonical = childNode, childReal
+	}
+	return node, canonical, nil
+}
+
+// absTarget returns the absolute path that a link in directory dir with the given target leads to.
+func absTarget(dir, target string) string {
+	if filepath.IsAbs(target) {
+		return target
+	}
+	return filepath.Join(dir, target)
+}
+
+// getNodeNoFollow returns the node for the given path like getNode, but the link itself if it is a symlink.
+func (m *memFS) getNodeNoFollow(path string) (*node, error) {
+	parent, err := m.getNode(filepath.Dir(path))
+	if err != nil {
+		return nil, err
+	}
+	if node, ok := parent.children[filepath.Base(path)]; ok && node.mode&os.ModeSymlink != 0 {
+		return node, nil
 	}
-	return node, nil
+	return m.getNode(path)
 }
+
 func (m *memFS) Mkdir(path string, perms fs.FileMode) error {
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -142,20 +158,13 @@ func (m *memFS) Stat(path string) (fs.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
-	if node.mode&fs.ModeSymlink != 0 {
-		targetNode, err := m.getNode(node.linkTarget)
-		if err != nil {
-			return nil, err
-		}
-		node = targetNode
-	}
 	return node.fileInfo(path), nil
 }
 
 func (m *memFS) Lstat(path string) (fs.FileInfo, error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	node, err := m.getNode(path)
+	node, err := m.getNodeNoFollow(path)
 	if err != nil {
 		return nil, err
 	}
@@ -166,7 +175,7 @@ func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 	parts := strings.Split(path, pathSep)
-	traversed := make([]string, 0)
+	canonical := pathSep
 	anode := m.tree
 	for _, part := range parts {
 		if part == "" {
@@ -177,6 +186,7 @@ func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 		}
 		var ok bool
 		newnode, ok := anode.children[part]
+		newreal := filepath.Join(canonical, part)
 		if !ok {
 			newnode = &node{
 				name:       part,
@@ -191,22 +201,16 @@ func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 		}
 		// what if it is a symlink?
 		if newnode.mode&os.ModeSymlink != 0 {
-			linkTarget := newnode.linkTarget
-			if !filepath.IsAbs(linkTarget) {
-				linkTarget = filepath.Join(strings.Join(traversed, pathSep), linkTarget)
-			}
-
-			targetNode, err := m.getNode(linkTarget)
+			targetNode, targetReal, err := m.resolve(absTarget(canonical, newnode.linkTarget), 0)
 			if err != nil {
 				return err
 			}
-			newnode = targetNode
+			newnode, newreal = targetNode, targetReal
 		}
 		if !newnode.dir {
 			return fmt.Errorf("path is not a directory")
 		}
-		anode = newnode
-		traversed = append(traversed, part)
+		anode, canonical = newnode, newreal
 	}
 	return nil
 }
@@ -229,7 +233,7 @@ func (m *memFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error)
 func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int) (*memFile, error) {
 	parent := filepath.Dir(name)
 	base := filepath.Base(name)
-	parentAnode, err := m.getNode(parent)
+	parentAnode, parentReal, err := m.resolve(parent, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -243,6 +247,9 @@ func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int)
 	if !ok && flag&os.O_CREATE == 0 {
 		return nil, os.ErrNotExist
 	}
+	if ok && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		return nil, os.ErrExist
+	}
 	if anode != nil && anode.dir {
 		return nil, fmt.Errorf("is a directory")
 	}
@@ -264,11 +271,7 @@ func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int)
 		if localCount > maxLinks {
 			return nil, fmt.Errorf("too many links")
 		}
-		linkTarget := anode.linkTarget
-		if !filepath.IsAbs(linkTarget) {
-			linkTarget = filepath.Join(parent, linkTarget)
-		}
-		return m.openFile(linkTarget, flag, perm, localCount)
+		return m.openFile(absTarget(parentReal, anode.linkTarget), flag, perm, localCount)
 	}
 
 	return newMemFile(anode, name, m, flag), nil
@@ -422,7 +425,7 @@ func (m *memFS) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
-	target, err := m.getNode(oldname)
+	target, err := m.getNodeNoFollow(oldname)
 	if err != nil {
 		return os.ErrNotExist
 	}
@@ -479,7 +482,7 @@ func (m *memFS) SetXattr(path string, attr string, data []byte) error {
 	if err != nil {
 		return os.ErrNotExist
 	}
-	node.xattrs[attr] = data
+	node.xattrs[attr] = append([]byte{}, data...)
 	return nil
 }
 func (m *memFS) GetXattr(path string, attr string) ([]byte, error) {
@@ -493,7 +496,7 @@ func (m *memFS) GetXattr(path string, attr string) ([]byte, error) {
 	if !ok {
 		return nil, os.ErrNotExist
 	}
-	return data, nil
+	return append([]byte{}, data...), nil
 }
 
 func (m *memFS) RemoveXattr(path string, attr string) error {
@@ -543,9 +546,6 @@ func newMemFile(node *node, name string, memfs *memFS, openMode int) *memFile {
 		name:     name,
 		openMode: openMode,
 	}
-	if openMode&os.O_APPEND != 0 {
-		m.offset = int64(len(node.data))
-	}
 	if openMode&os.O_TRUNC != 0 {
 		node.data = nil
 	}
@@ -556,7 +556,9 @@ func (f *memFile) Stat() (fs.FileInfo, error) {
 	if f.node == nil || f.fs == nil {
 		return nil, os.ErrClosed
 	}
-	return f.fs.Stat(f.name)
+	f.fs.mu.Lock()
+	defer f.fs.mu.Unlock()
+	return f.node.fileInfo(f.name), nil
 }
 
 func (f *memFile) Close() error {
@@ -588,10 +590,16 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 	f.fs.mu.Lock()
 	defer f.fs.mu.Unlock()
+	if off < 0 {
+		return 0, errors.New("negative offset")
+	}
 	if off >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
 	n = copy(p, f.node.data[off:])
+	if n < len(p) {
+		return n, io.EOF
+	}
 	return n, nil
 }
 func (f *memFile) Seek(offset int64, whence int) (int64, error) {
@@ -602,14 +610,17 @@ func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 	defer f.fs.mu.Unlock()
 	switch whence {
 	case io.SeekStart:
-		f.offset = offset
 	case io.SeekCurrent:
-		f.offset += offset
+		offset += f.offset
 	case io.SeekEnd:
-		f.offset = int64(len(f.node.data)) + offset
+		offset += int64(len(f.node.data))
 	default:
 		return 0, errors.New("invalid whence")
 	}
+	if offset < 0 {
+		return 0, errors.New("negative offset")
+	}
+	f.offset = offset
 	return f.offset, nil
 }
 
@@ -617,17 +628,24 @@ func (f *memFile) Write(p []byte) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
-	if f.openMode&os.O_APPEND != 0 && f.openMode&os.O_RDWR != 0 && f.openMode&os.O_WRONLY != 0 {
+	if f.openMode&os.O_RDWR == 0 && f.openMode&os.O_WRONLY == 0 {
 		return 0, errors.New("file not opened in write mode")
 	}
 	f.fs.mu.Lock()
 	defer f.fs.mu.Unlock()
-	if f.offset+int64(len(p)) > int64(len(f.node.data)) {
+	if f.openMode&os.O_APPEND != 0 {
+		f.offset = int64(len(f.node.data))
+	}
+	end := f.offset + int64(len(p))
+	if gap := f.offset - int64(len(f.node.data)); gap > 0 && len(p) > 0 {
+		f.node.data = append(f.node.data, make([]byte, gap)...)
+	}
+	if end > int64(len(f.node.data)) {
 		f.node.data = append(f.node.data[:f.offset], p...)
 	} else {
 		copy(f.node.data[f.offset:], p)
 	}
-	f.offset += int64(len(p))
+	f.offset = end
 	return len(p), nil
 }
 
-- 
2.43.0


From 9b97f5d094d5162e4d6e149fa53f6dfc9086e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 23/59] fix: close responses and files when a fetch ends early

---
 pkg/apk/cache.go           | 1 +
 pkg/apk/implementation.go  | 2 ++
 pkg/apk/index.go           | 2 +-
 pkg/expandapk/expandapk.go | 3 +++
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 632cdbc..ad031c9 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -120,6 +120,7 @@ func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile stri
 
 	fi, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("stat(%q): %w", etagFile, err)
 	}
 
diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index a43906a..5e25adf 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -914,10 +914,12 @@ func (a *APK) cachedPackage(ctx context.Context, pkg InstallablePackage, cacheDi
 	}
 	info, err := data.Stat()
 	if err != nil {
+		data.Close()
 		return nil, err
 	}
 	exp.TarFS, err = tarfs.New(data, info.Size())
 	if err != nil {
+		data.Close()
 		return nil, err
 	}
 
diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 2a4bee9..8309ec7 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -235,6 +235,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if err != nil {
 			return nil, fmt.Errorf("unable to get repository index at %s: %w", asURL.Redacted(), err)
 		}
+		defer res.Body.Close()
 		switch res.StatusCode {
 		case http.StatusOK:
 			// this is fine
@@ -243,7 +244,6 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		default:
 			return nil, fmt.Errorf("unexpected status code %d when getting repository index for architecture %s at %s", res.StatusCode, arch, asURL.Redacted())
 		}
-		defer res.Body.Close()
 		buf := bytes.NewBuffer(nil)
 		if _, err := io.Copy(buf, res.Body); err != nil {
 			return nil, fmt.Errorf("unable to read repository index at %s: %w", asURL.Redacted(), err)
diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index bbb67d5..96c44e7 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -158,6 +158,9 @@ func (a *APKExpanded) APK() (io.ReadCloser, error) {
 		if fn != "" {
 			f, err := os.Open(fn)
 			if err != nil {
+				for _, c := range cs {
+					c.Close()
+				}
 				return nil, err
 			}
 			rs = append(rs, f)
-- 
2.43.0


From 8145c3d6373b267688e57996fc96c2850ce94dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 24/59] fix: directory-backed file system keeps memory and disk
 in step, and is the same after reopening

---
 pkg/fs/rwosfs.go | 138 ++++++++++++++++++++++++-----------------------
 1 file changed, 72 insertions(+), 66 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 2b659fe..e220583 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -133,7 +133,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 			return err
 		}
 		mode := fi.Mode()
-		perm := mode.Perm()
+		perm := mode & (fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
 		switch mode.Type() {
 		case fs.ModeDir:
 			fullPerm := os.ModeDir | perm
@@ -141,10 +141,10 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 		case fs.ModeSymlink:
 			var target string
 			target, err = os.Readlink(filepath.Join(dir, path))
-			if err != nil {
+			if err == nil {
 				err = f.overrides.Symlink(target, path)
 			}
-		case fs.ModeCharDevice:
+		case fs.ModeDevice | fs.ModeCharDevice:
 			var dev int
 			sys := fi.Sys()
 			st1, ok1 := sys.(*syscall.Stat_t)
@@ -157,7 +157,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 			default:
 				return fmt.Errorf("unsupported type %T", sys)
 			}
-			err = f.overrides.Mknod(path, uint32(unix.S_IFCHR|mode), dev)
+			err = f.overrides.Mknod(path, uint32(unix.S_IFCHR|perm), dev)
 		default:
 			var memFile File
 			memFile, err = f.overrides.OpenFile(path, os.O_CREATE, perm)
@@ -221,14 +221,10 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 	if err != nil {
 		return nil, err
 	}
-	baseName := filepath.Base(name)
 	if f.caseSensitiveOnDisk(name) {
 		file, err := os.Open(fullpath)
 		if err == nil {
-			return &fileImpl{
-				file: file,
-				name: baseName,
-			}, nil
+			return &fileImpl{file: file}, nil
 		}
 		if !os.IsPermission(err) {
 			return nil, err
@@ -244,12 +240,13 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 		}
 		file, err = os.Open(fullpath)
 		if err != nil {
+			_ = os.Chmod(fullpath, fi.Mode())
 			return nil, fmt.Errorf("unable to read file even after change permissions: %s", name)
 		}
 		perms := fi.Mode()
 		return &fileImpl{
 			file:  file,
-			name:  baseName,
+			path:  fullpath,
 			perms: &perms,
 		}, nil
 	}
@@ -258,7 +255,7 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &fileImpl{file: file, name: baseName}, nil
+	return &fileImpl{file: file}, nil
 }
 
 // Open open a file for reading. Returns fs.File.
@@ -272,18 +269,26 @@ func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error)
 		err  error
 	)
 	if flag&os.O_CREATE == os.O_CREATE {
-		file, err = f.overrides.OpenFile(name, flag, perm)
-		if err != nil {
-			return nil, err
-		}
+		var diskFile *os.File
 		// do we create it on disk?
 		if f.createOnDisk(name) {
-			_ = file.Close()
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
+			diskFile, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
 			if err != nil {
 				return nil, err
 			}
 		}
+		file, err = f.overrides.OpenFile(name, flag, perm)
+		if err != nil {
+			if diskFile != nil {
+				_ = diskFile.Close()
+			}
+			return nil, err
+		}
+		if diskFile != nil {
+			// close the memory one
+			_ = file.Close()
+			file = diskFile
+		}
 	} else {
 		if f.caseSensitiveOnDisk(name) {
 			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
@@ -324,41 +329,37 @@ func (f *dirFS) Stat(name string) (fs.FileInfo, error) {
 	}, nil
 }
 func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
-	return f.overrides.Lstat(name)
-}
-
-func (f *dirFS) Create(name string) (File, error) {
-	// if the underlying filesystem is case-insensitive, check if the file exists and, if so,
-	// do it only in memory.
-	var (
-		file File
-		err  error
-	)
-	file, err = f.overrides.Create(name)
+	mi, err := f.overrides.Lstat(name)
 	if err != nil {
 		return nil, err
 	}
-	// do we create it on disk?
-	if f.createOnDisk(name) {
-		// close the memory one
-		_ = file.Close()
-		file, err = os.Create(filepath.Join(f.base, name))
+	fi := mi
+	if f.caseSensitiveOnDisk(name) {
+		fi, err = os.Lstat(filepath.Join(f.base, name))
 		if err != nil {
 			return nil, err
 		}
 	}
+	return &fileInfo{
+		file: fi,
+		mem:  mi,
+	}, nil
+}
 
-	return file, err
+func (f *dirFS) Create(name string) (File, error) {
+	// if the underlying filesystem is case-insensitive, check if the file exists and, if so,
+	// do it only in memory.
+	return f.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0o666)
 }
 
 func (f *dirFS) Remove(name string) error {
-	if err := f.overrides.Remove(name); err != nil {
-		return err
-	}
-	if f.removeOnDisk(name) {
-		return os.Remove(filepath.Join(f.base, name))
+	if f.caseSensitiveOnDisk(name) {
+		if err := os.Remove(filepath.Join(f.base, name)); err != nil {
+			return err
+		}
+		f.removedOnDisk(name)
 	}
-	return nil
+	return f.overrides.Remove(name)
 }
 
 func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -411,21 +412,21 @@ func (f *dirFS) ReadFile(name string) ([]byte, error) {
 	return f.overrides.ReadFile(name)
 }
 func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
-	var (
-		memContent []byte
-	)
-	if f.createOnDisk(name) {
-		if err := os.WriteFile(filepath.Join(f.base, name), b, mode); err != nil {
-			return err
-		}
-	} else {
-		memContent = b
+	if !f.createOnDisk(name) {
+		// this is the actual file because of case sensitivity, so use the actual content
+		return f.overrides.WriteFile(name, b, mode)
 	}
 
-	// ensure file exists in memory
-	// if this is just a flag for what is on disk, make it with zero size
-	// if it is the actual file because of case sensitivity, then use the actual content
-	return f.overrides.WriteFile(name, memContent, mode)
+	// the file in memory is just a flag for what is on disk, also if not all of the content gets there
+	file, err := f.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
+	if err != nil {
+		return err
+	}
+	if _, err := file.Write(b); err != nil {
+		_ = file.Close()
+		return err
+	}
+	return file.Close()
 }
 
 func (f *dirFS) Readnod(name string) (dev int, err error) {
@@ -471,6 +472,13 @@ func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 	fullPerm := os.ModeDir | perm
 	if f.createOnDisk(name) {
 		if err := os.MkdirAll(filepath.Join(f.base, name), fullPerm); err != nil {
+			// keep track of those parents that we did create
+			for dir := filepath.Dir(name); dir != "." && dir != pathSep; dir = filepath.Dir(dir) {
+				if fi, serr := os.Stat(filepath.Join(f.base, dir)); serr == nil && fi.IsDir() {
+					_ = f.overrides.MkdirAll(dir, fullPerm)
+					break
+				}
+			}
 			return err
 		}
 	}
@@ -507,6 +515,9 @@ func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
 	if f.caseSensitiveOnDisk(name) {
 		err := unix.Mknod(filepath.Join(f.base, name), mode, dev)
 		// what if we could not create it? Just create a regular file there, and memory will override
+		if os.IsExist(err) {
+			return err
+		}
 		if err != nil {
 			if err := os.WriteFile(filepath.Join(f.base, name), nil, 0); err != nil {
 				return err
@@ -579,25 +590,20 @@ func (f *dirFS) createOnDisk(p string) bool {
 	return result == p
 }
 
-// removeOnDisk given a path p, determine if it should be removed from disk, and, if relevant,
-// remove it from the caseMap.
-func (f *dirFS) removeOnDisk(p string) (removeOnDisk bool) {
-	f.caseMapMutex.Lock()
-	defer f.caseMapMutex.Unlock()
-	key := strings.ToLower(p)
+// removedOnDisk given a path p that has been removed from disk, remove it from the caseMap, if relevant.
+func (f *dirFS) removedOnDisk(p string) {
 	if f.caseMap == nil {
-		removeOnDisk = true
-	} else if v, ok := f.caseMap[key]; ok && v == p {
-		delete(f.caseMap, key)
-		removeOnDisk = true
+		return
 	}
-	return
+	f.caseMapMutex.Lock()
+	defer f.caseMapMutex.Unlock()
+	delete(f.caseMap, strings.ToLower(standardizePath(p)))
 }
 
 type file File
 type fileImpl struct {
 	file
-	name  string
+	path  string
 	perms *os.FileMode
 }
 
@@ -606,7 +612,7 @@ func (f fileImpl) Close() error {
 		return err
 	}
 	if f.perms != nil {
-		return os.Chmod(f.name, *f.perms)
+		return os.Chmod(f.path, *f.perms)
 	}
 	return nil
 }
-- 
2.43.0


From 5adf4f943dc71766a298d9d7f0827b8ff1182c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 25/59] fix: resolving does not depend on map order

---
 pkg/apk/repo.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 2e98812..9b2566b 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -244,8 +244,11 @@ func NewPkgResolver(_ context.Context, indexes []NamedIndex) *PkgResolver {
 	}
 	// create a map of every provided file to its package
 	allPkgs := make([][]*repositoryPackage, 0, len(pkgNameMap))
-	for _, pkgVersions := range pkgNameMap {
-		allPkgs = append(allPkgs, pkgVersions)
+	names := maps.Keys(pkgNameMap)
+	// The order of providers can matter, so don't let it depend on map order.
+	slices.Sort(names)
+	for _, name := range names {
+		allPkgs = append(allPkgs, pkgNameMap[name])
 	}
 	for _, pkgVersions := range allPkgs {
 		for _, pkg := range pkgVersions {
@@ -545,7 +548,10 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 		}
 	}
 	// are there any installIf dependencies?
-	for dep, depPkg := range added {
+	// In order of dependencies, which may grow, so that the result does not depend on map order.
+	for i := 0; i < len(dependencies); i++ {
+		depPkg := dependencies[i]
+		dep := depPkg.Name
 		depPkgList, ok := p.installIfMap[dep]
 		if !ok {
 			depPkgList, ok = p.installIfMap[fmt.Sprintf("%s=%s", dep, depPkg.Version)]
@@ -740,6 +746,8 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 		}
 
 		constraints = maps.Keys(options)
+		// Map order must not decide which of several unsolvable constraints gets reported.
+		slices.Sort(constraints)
 		if len(constraints) == 0 {
 			// Nothing left to solve.
 			continue
-- 
2.43.0


From 769389dfb8d9b4383a0e080bd2c0a294cfa5a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 26/59] fix: read only the signed part of an index

---
 pkg/apk/index.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 8309ec7..a7b3885 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -253,6 +253,10 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		return nil, fmt.Errorf("repository scheme %s not supported", asURL.Scheme)
 	}
 
+	// The part of the file that is the index itself, and the signature in front of it.
+	indexData := b
+	var signature []byte
+
 	// validate the signature
 	if shouldCheckSignatureForIndex(u, arch, opts) {
 		buf := bytes.NewReader(b)
@@ -277,7 +281,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if len(matches) != 2 {
 			return nil, fmt.Errorf("failed to find key name in signature file name: %s", signatureFile.Name)
 		}
-		signature, err := io.ReadAll(tarReader)
+		signature, err = io.ReadAll(tarReader)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read signature from repository index: %w", err)
 		}
@@ -290,7 +294,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		allBytes := len(b)
 		unreadBytes := buf.Len()
 		readBytes := allBytes - unreadBytes
-		indexData := b[readBytes:]
+		indexData = b[readBytes:]
 
 		indexDigest, err := sign.HashData(indexData)
 		if err != nil {
@@ -319,11 +323,15 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 			return nil, fmt.Errorf("no key found to verify signature for keyfile %s; tried all other keys as well", matches[1])
 		}
 	}
-	// with a valid signature, convert it to an ApkIndex
-	index, err := IndexFromArchive(io.NopCloser(bytes.NewReader(b)))
+	// with a valid signature, convert it to an ApkIndex; only what the signature covers, because
+	// anything can be added to what comes before that.
+	index, err := IndexFromArchive(io.NopCloser(bytes.NewReader(indexData)))
 	if err != nil {
 		return nil, fmt.Errorf("unable to read convert repository index bytes to index struct at %s: %w", asURL.Redacted(), err)
 	}
+	if index.Signature == nil {
+		index.Signature = signature
+	}
 
 	return index, err
 }
-- 
2.43.0


From 401a248a21d1dab9ff952c0217a4abd75b9ac821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 27/59] fix: report an empty package as an error

Expanding a stream without a single byte, such as an empty response body,
dereferenced a nil reader.
---
 pkg/expandapk/expandapk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 96c44e7..aab85cd 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -436,6 +436,9 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		}
 	}
 
+	if gzi == nil {
+		return nil, fmt.Errorf("apk is empty: %w", io.ErrUnexpectedEOF)
+	}
 	if err := gzi.Close(); err != nil {
 		return nil, fmt.Errorf("expandApk error 6: %w", err)
 	}
-- 
2.43.0


From c837aa1e1ceb40c3d43dcf54dd7b87ca0ba6f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:50 +0000
Subject: [PATCH 28/59] fix: creating an entry below a regular file is an
 error, not a panic

---
 pkg/fs/memfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 82db805..fea7357 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -332,6 +332,9 @@ func (m *memFS) Mknod(path string, mode uint32, dev int) error {
 	if err != nil {
 		return err
 	}
+	if !anode.dir {
+		return fmt.Errorf("parent is not a directory")
+	}
 	if _, ok := anode.children[base]; ok {
 		return os.ErrExist
 	}
@@ -403,6 +406,9 @@ func (m *memFS) Symlink(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	if !anode.dir {
+		return fmt.Errorf("parent is not a directory")
+	}
 	if _, ok := anode.children[base]; ok {
 		return os.ErrExist
 	}
@@ -425,6 +431,9 @@ func (m *memFS) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	if !anode.dir {
+		return fmt.Errorf("parent is not a directory")
+	}
 	target, err := m.getNodeNoFollow(oldname)
 	if err != nil {
 		return os.ErrNotExist
-- 
2.43.0


From 10384b456b6ee8d277fe0460d068dff63c4ea7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 29/59] fix: a directory cannot be hard-linked in memory

---
 pkg/fs/memfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index fea7357..9250683 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -438,6 +438,9 @@ func (m *memFS) Link(oldname, newname string) error {
 	if err != nil {
 		return os.ErrNotExist
 	}
+	if target.dir {
+		return fmt.Errorf("hard link to a directory is not allowed")
+	}
 	if _, ok := anode.children[base]; ok {
 		return os.ErrExist
 	}
-- 
2.43.0


From 081cef057fef2a7265a003965f2a3787bf435603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 30/59] fix: keep track of which variant of a name is on disk,
 and of what was not created

---
 pkg/fs/rwosfs.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index e220583..26e0685 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -132,6 +132,8 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 		if err != nil {
 			return err
 		}
+		// what is on disk already is the variant that is on disk
+		f.createOnDisk(path)
 		mode := fi.Mode()
 		perm := mode & (fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
 		switch mode.Type() {
@@ -274,6 +276,7 @@ func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error)
 		if f.createOnDisk(name) {
 			diskFile, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
 			if err != nil {
+				f.notCreated(name)
 				return nil, err
 			}
 		}
@@ -449,6 +452,7 @@ func (f *dirFS) Link(oldname, newname string) error {
 	}
 	if f.createOnDisk(newname) {
 		if err := os.Link(target, filepath.Join(f.base, newname)); err != nil {
+			f.notCreated(newname)
 			return err
 		}
 	}
@@ -461,6 +465,7 @@ func (f *dirFS) Symlink(oldname, newname string) error {
 	// This enables proper symlink behaviour.
 	if f.createOnDisk(newname) {
 		if err := os.Symlink(oldname, filepath.Join(f.base, newname)); err != nil {
+			f.notCreated(newname)
 			return err
 		}
 	}
@@ -479,6 +484,7 @@ func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 					break
 				}
 			}
+			f.notCreated(name)
 			return err
 		}
 	}
@@ -490,6 +496,7 @@ func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
 	fullPerm := os.ModeDir | perm
 	if f.createOnDisk(name) {
 		if err := os.Mkdir(filepath.Join(f.base, name), fullPerm); err != nil {
+			f.notCreated(name)
 			return err
 		}
 	}
@@ -512,16 +519,19 @@ func (f *dirFS) Chown(path string, uid, gid int) error {
 }
 
 func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
-	if f.caseSensitiveOnDisk(name) {
+	if f.createOnDisk(name) {
 		err := unix.Mknod(filepath.Join(f.base, name), mode, dev)
 		// what if we could not create it? Just create a regular file there, and memory will override
 		if os.IsExist(err) {
 			return err
 		}
 		if err != nil {
-			if err := os.WriteFile(filepath.Join(f.base, name), nil, 0); err != nil {
+			file, err := os.OpenFile(filepath.Join(f.base, name), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0)
+			if err != nil {
+				f.notCreated(name)
 				return err
 			}
+			_ = file.Close()
 		}
 	}
 	return f.overrides.Mknod(name, mode, dev)
@@ -600,6 +610,13 @@ func (f *dirFS) removedOnDisk(p string) {
 	delete(f.caseMap, strings.ToLower(standardizePath(p)))
 }
 
+// notCreated forgets that a path was to be created on disk, if it failed and is not there.
+func (f *dirFS) notCreated(p string) {
+	if _, err := f.overrides.Lstat(p); err != nil {
+		f.removedOnDisk(p)
+	}
+}
+
 type file File
 type fileImpl struct {
 	file
-- 
2.43.0


From 70721b4f3655032cf219555062b49ff2105d6873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 31/59] fix: initialise a database again where /tmp exists
 already

The mode wanted for /tmp has the sticky bit, which Perm() leaves out, so
no existing /tmp was ever found right: after a failure, or for a prepared
root, InitDB could not be called (again).
---
 pkg/apk/implementation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 5e25adf..1b63a75 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -252,7 +252,7 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 			return fmt.Errorf("error opening base directory %s: %w", e.path, err)
 		case !stat.IsDir():
 			return fmt.Errorf("base directory %s is not a directory", e.path)
-		case stat.Mode().Perm() != e.perms:
+		case stat.Mode().Perm() != e.perms.Perm():
 			return fmt.Errorf("base directory %s has incorrect permissions: %o", e.path, stat.Mode().Perm())
 		}
 	}
-- 
2.43.0


From db2d88b190438bfde7b11d241275dbee428c46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 32/59] fix: initialise a database again where its devices
 exist already

InitDB could not be repeated on a root after it had failed half-way: the
device nodes it had made itself were in its way.
---
 pkg/apk/implementation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 1b63a75..8ecc79a 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -278,7 +278,14 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 	}
 	for _, e := range initDeviceFiles {
 		perms := uint32(e.perms.Perm())
-		err := a.fs.Mknod(e.path, unix.S_IFCHR|perms, int(unix.Mkdev(e.major, e.minor)))
+		dev := int(unix.Mkdev(e.major, e.minor))
+		err := a.fs.Mknod(e.path, unix.S_IFCHR|perms, dev)
+		if errors.Is(err, fs.ErrExist) {
+			// Left by an earlier initialisation.
+			if is, rerr := a.fs.Readnod(e.path); rerr == nil && is == dev {
+				continue
+			}
+		}
 		if !a.ignoreMknodErrors && err != nil {
 			return fmt.Errorf("failed to create char device %s: %w", e.path, err)
 		}
-- 
2.43.0


From ce05ff910784d5656e4c5d8be9ad94f10ca5cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:36 +0000
Subject: [PATCH 33/59] fix: keep the cause when a file cannot be opened in
 spite of a permission change

Callers that tell a missing file from a failed read (the archive writer, which
reads etc/passwd and etc/group) took the error without a cause for a file that
could not be parsed, and wrote the archive without user names.
---
 pkg/fs/rwosfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 26e0685..292e4e0 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -238,12 +238,12 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 		}
 		// Try to change permissions and open again.
 		if err := os.Chmod(fullpath, 0o600); err != nil {
-			return nil, fmt.Errorf("unable to read file or change permissions: %s", name)
+			return nil, fmt.Errorf("unable to read file or change permissions of %s: %w", name, err)
 		}
 		file, err = os.Open(fullpath)
 		if err != nil {
 			_ = os.Chmod(fullpath, fi.Mode())
-			return nil, fmt.Errorf("unable to read file even after change permissions: %s", name)
+			return nil, fmt.Errorf("unable to read file even after change permissions of %s: %w", name, err)
 		}
 		perms := fi.Mode()
 		return &fileImpl{
-- 
2.43.0


From e449d687f3ec7adec94797b7c782861255ef5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 34/59] fix: an index whose last line is cut short is an error,
 not a panic

---
 pkg/apk/apkindex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 36fc91c..8755c32 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -120,7 +120,11 @@ func ParsePackageIndex(apkIndexUnpacked io.Reader) ([]*Package, error) {
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		// A line can also be cut short, in which case we'll get to see why only after it.
+		if len(line) < 2 || line[1:2] != ":" {
+			if err := indexScanner.Err(); err != nil {
+				return nil, err
+			}
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
-- 
2.43.0


From d56222e518b93b215629247a6518c925a3457398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 35/59] fix: concurrent keyring initialisations do not share
 the list of keys

---
 pkg/apk/implementation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 8ecc79a..43fc791 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -377,7 +377,8 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 
 	if len(extraKeyFiles) > 0 {
 		log.Debugf("appending %d extra keys to keyring", len(extraKeyFiles))
-		keyFiles = append(keyFiles, extraKeyFiles...)
+		// Don't write to the caller's slice, which others may be using too.
+		keyFiles = append(slices.Clip(keyFiles), extraKeyFiles...)
 	}
 
 	var eg errgroup.Group
-- 
2.43.0


From f59c78a953f417b354bbe46ec431c968b95754c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 36/59] fix: an install that failed part-way can be called
 again

The files of a call that did not get to the end were taken for those of
another package when it was called again on the same client: partly written
files, links and files of packages without an origin made it fail, files
written before were missing from the installed database, and scripts and
triggers were recorded twice.
---
 pkg/apk/implementation.go | 64 +++++++++++++++++++++++++--------------
 pkg/apk/install.go        |  3 ++
 2 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 43fc791..39ab9e5 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -68,6 +68,9 @@ type APK struct {
 
 	// filename to owning package, last write wins
 	installedFiles map[string]*Package
+
+	// files created for packages that are not recorded as installed yet
+	unrecorded []string
 }
 
 func New(options ...Option) (*APK, error) {
@@ -615,9 +618,16 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 		}
 	}()
 
+	// Take back what an earlier call left that did not get to the end, so that it is
+	// not mistaken for the files of another package.
+	if err := a.removeUnrecorded(); err != nil {
+		return err
+	}
+
 	// Track what files were installed by which packages so we can deduplicate in idb.
 	allFiles := make([][]tar.Header, len(allpkgs))
 	infos := make([]*Package, len(allpkgs))
+	controls := make([][]byte, len(allpkgs))
 
 	// A slice of pseudo-promises that get closed when expanded[i] is ready.
 	done := make([]chan struct{}, len(allpkgs))
@@ -655,12 +665,13 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 				}
 				infos[i] = pkgInfo
 
-				installedFiles, err := a.installPackage(gctx, pkgInfo, exp, sourceDateEpoch)
+				installedFiles, control, err := a.installPackage(gctx, pkgInfo, exp)
 				if err != nil {
 					return fmt.Errorf("installing %s: %w", pkg, err)
 				}
 
 				allFiles[i] = installedFiles
+				controls[i] = control
 			}
 		}
 
@@ -689,7 +700,10 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 		return fmt.Errorf("installing packages: %w", err)
 	}
 
-	// update the installed file
+	// All files are in place.
+	a.unrecorded = nil
+
+	// update the scripts.tar, the triggers and the installed file
 	for i, files := range allFiles {
 		pkg := infos[i]
 
@@ -712,6 +726,12 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 			return owner != pkg
 		})
 
+		if err := a.updateScriptsTar(pkg, bytes.NewReader(controls[i]), sourceDateEpoch); err != nil {
+			return fmt.Errorf("unable to update scripts.tar for pkg %s: %w", pkg.Name, err)
+		}
+		if err := a.updateTriggers(pkg, bytes.NewReader(controls[i])); err != nil {
+			return fmt.Errorf("unable to update triggers for pkg %s: %w", pkg.Name, err)
+		}
 		if err := a.AddInstalledPackage(pkg, files); err != nil {
 			return fmt.Errorf("unable to update installed file for pkg %s: %w", pkg.Name, err)
 		}
@@ -1142,8 +1162,9 @@ func packageInfo(exp *expandapk.APKExpanded) (*Package, error) {
 	return pkg, nil
 }
 
-// installPackage installs a single package and updates installed db.
-func (a *APK) installPackage(ctx context.Context, pkg *Package, expanded *expandapk.APKExpanded, sourceDateEpoch *time.Time) ([]tar.Header, error) {
+// installPackage installs the files of a single package and returns them, along with its control
+// section, so that the package can be recorded once all the others are installed.
+func (a *APK) installPackage(ctx context.Context, pkg *Package, expanded *expandapk.APKExpanded) ([]tar.Header, []byte, error) {
 	log := clog.FromContext(ctx)
 	log.Infof("installing %s (%s)", pkg.Name, pkg.Version)
 
@@ -1160,41 +1181,40 @@ func (a *APK) installPackage(ctx context.Context, pkg *Package, expanded *expand
 	if wh, ok := a.fs.(WriteHeaderer); ok {
 		installedFiles, err = a.lazilyInstallAPKFiles(ctx, wh, expanded.TarFS, pkg)
 		if err != nil {
-			return nil, fmt.Errorf("unable to install files for pkg %s: %w", pkg.Name, err)
+			return nil, nil, fmt.Errorf("unable to install files for pkg %s: %w", pkg.Name, err)
 		}
 	} else {
 		packageData, err := expanded.PackageData()
 		if err != nil {
-			return nil, fmt.Errorf("opening package file %q: %w", expanded.PackageFile, err)
+			return nil, nil, fmt.Errorf("opening package file %q: %w", expanded.PackageFile, err)
 		}
 		defer packageData.Close()
 
 		installedFiles, err = a.installAPKFiles(ctx, packageData, pkg)
 		if err != nil {
-			return nil, fmt.Errorf("unable to install files for pkg %s: %w", pkg.Name, err)
+			return nil, nil, fmt.Errorf("unable to install files for pkg %s: %w", pkg.Name, err)
 		}
 	}
 
-	// update the scripts.tar
-	controlData, err := os.Open(expanded.ControlFile)
+	controlData, err := os.ReadFile(expanded.ControlFile)
 	if err != nil {
-		return nil, fmt.Errorf("opening control file %q: %w", expanded.ControlFile, err)
+		return nil, nil, fmt.Errorf("reading control file %q: %w", expanded.ControlFile, err)
 	}
-	defer controlData.Close()
 
-	if err := a.updateScriptsTar(pkg, controlData, sourceDateEpoch); err != nil {
-		return nil, fmt.Errorf("unable to update scripts.tar for pkg %s: %w", pkg.Name, err)
-	}
+	return installedFiles, controlData, nil
+}
 
-	// update the triggers
-	if _, err := controlData.Seek(0, 0); err != nil {
-		return nil, fmt.Errorf("unable to seek to start of control data for pkg %s: %w", pkg.Name, err)
-	}
-	if err := a.updateTriggers(pkg, controlData); err != nil {
-		return nil, fmt.Errorf("unable to update triggers for pkg %s: %w", pkg.Name, err)
+// removeUnrecorded removes the files of packages that were not recorded as installed.
+func (a *APK) removeUnrecorded() error {
+	for i := len(a.unrecorded) - 1; i >= 0; i-- {
+		name := a.unrecorded[i]
+		if err := a.fs.Remove(name); err != nil && !errors.Is(err, os.ErrNotExist) {
+			return fmt.Errorf("unable to remove %s of an incomplete installation: %w", name, err)
+		}
+		delete(a.installedFiles, name)
+		a.unrecorded = a.unrecorded[:i]
 	}
-
-	return installedFiles, nil
+	return nil
 }
 
 func (a *APK) datahash(controlTarGz io.Reader) (string, error) {
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 6879fe5..53dee28 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -59,6 +59,7 @@ func (a *APK) writeOneFile(header *tar.Header, r io.Reader, allowOverwrite bool)
 		return fmt.Errorf("error creating file %s: %w", header.Name, err)
 	}
 	defer f.Close()
+	a.unrecorded = append(a.unrecorded, header.Name)
 
 	if _, err := io.CopyN(f, r, header.Size); err != nil {
 		return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
@@ -258,10 +259,12 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 			if err := a.fs.Symlink(header.Linkname, header.Name); err != nil {
 				return nil, fmt.Errorf("unable to install symlink from %s -> %s: %w", header.Name, header.Linkname, err)
 			}
+			a.unrecorded = append(a.unrecorded, header.Name)
 		case tar.TypeLink:
 			if err := a.fs.Link(header.Linkname, header.Name); err != nil {
 				return nil, err
 			}
+			a.unrecorded = append(a.unrecorded, header.Name)
 		default:
 			return nil, fmt.Errorf("unsupported file type %s %v", header.Name, header.Typeflag)
 		}
-- 
2.43.0


From 1c43c6734b0379c2ea2371fd064961f39bb385d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 37/59] fix: a signature in the cache that cannot be looked at
 is not a missing one

---
 pkg/apk/implementation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 39ab9e5..a422d84 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -909,6 +909,8 @@ func (a *APK) cachedPackage(ctx context.Context, pkg InstallablePackage, cacheDi
 		exp.SignatureFile = sig
 		exp.Signed = true
 		exp.Size += sf.Size()
+	} else if !errors.Is(err, os.ErrNotExist) {
+		return nil, err
 	}
 
 	f, err := os.Open(ctl)
-- 
2.43.0


From 5093cc1d6477f45e33e6252b6e97dd278f1c0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 38/59] fix: files in the root of a package are listed, and an
 entry for the root itself is no endless recursion

---
 pkg/apk/installed.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index debbdc9..8339f17 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -61,6 +61,10 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 	// package lines
 	pkgLines := PackageToInstalled(pkg)
 	// file lines
+	if len(sortedFiles) > 0 && sortedFiles[0].Typeflag != tar.TypeDir {
+		// These are in the root.
+		pkgLines = append(pkgLines, "F:")
+	}
 	for _, f := range sortedFiles {
 		perm := f.Mode & 0777
 		user := f.Uid
@@ -353,7 +357,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			lastDir.Mode = perms
 		case "R":
 			fullpath := val
-			if lastDir != nil {
+			if lastDir != nil && lastDir.Name != "" {
 				fullpath, _ = sanitizeArchivePath(lastDir.Name, val)
 			}
 			pkg.Files = append(pkg.Files, tar.Header{
@@ -424,6 +428,10 @@ func sortTarHeaders(headers []tar.Header) []tar.Header {
 	for _, header := range headers {
 		// Use a cleaned name for map keys to ensure consistency with lookups later.
 		cleanedName := filepath.Clean(header.Name)
+		if cleanedName == "." {
+			// The root itself is not listed.
+			continue
+		}
 
 		dir := filepath.Dir(cleanedName)
 		directoryChildren[dir] = append(directoryChildren[dir], cleanedName)
@@ -447,9 +455,15 @@ func sortTarHeaders(headers []tar.Header) []tar.Header {
 		}
 	}
 
-	sort.Strings(topLevelDirs)
+	// The files in the root itself come first.
+	topLevel := topLevelDirs
+	for _, child := range directoryChildren["."] {
+		if all[child].Typeflag != tar.TypeDir {
+			topLevel = append(topLevel, child)
+		}
+	}
 
-	sorted := sortChildrenTarHeaders(directoryChildren, all, topLevelDirs)
+	sorted := sortChildrenTarHeaders(directoryChildren, all, topLevel)
 	return sorted
 }
 
-- 
2.43.0


From 96d04e7a2a9f9e895395d3ee71496cd8fe34f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 39/59] fix: the in-memory file system takes a dot in a path
 for the directory itself

---
 pkg/fs/memfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 9250683..c07e142 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -72,7 +72,7 @@ func (m *memFS) resolve(path string, linkDepth int) (*node, string, error) {
 	}
 	canonical := pathSep
 	for _, part := range strings.Split(path, pathSep) {
-		if part == "" {
+		if part == "" || part == "." {
 			continue
 		}
 		if node.children == nil {
@@ -178,7 +178,7 @@ func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 	canonical := pathSep
 	anode := m.tree
 	for _, part := range parts {
-		if part == "" {
+		if part == "" || part == "." {
 			continue
 		}
 		if anode.children == nil {
-- 
2.43.0


From 44d888db09b93102897e8e31d0846caac96e5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 40/59] fix: a package with an entry without a name does not
 panic

---
 pkg/apk/install.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 53dee28..aa260c6 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -207,7 +207,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 		}
 		// if it was a hidden file and not a directory and we have not yet started the data section,
 		// so skip this file
-		if !startedDataSection && header.Name[0] == '.' && !strings.Contains(header.Name, "/") {
+		if !startedDataSection && strings.HasPrefix(header.Name, ".") && !strings.Contains(header.Name, "/") {
 			continue
 		}
 		// whatever it is now, it is in the data section
@@ -324,7 +324,7 @@ func (a *APK) lazilyInstallAPKFiles(ctx context.Context, wh WriteHeaderer, tf *t
 		//  * considered to start the data section of the file.
 		//  * This does not make any sense if the file has v2.0
 		//  * style .PKGINFO
-		if !startedDataSection && file.Header.Name[0] == '.' && !strings.Contains(file.Header.Name, "/") {
+		if !startedDataSection && strings.HasPrefix(file.Header.Name, ".") && !strings.Contains(file.Header.Name, "/") {
 			continue
 		}
 		// whatever it is now, it is in the data section
-- 
2.43.0


From e5364a9b76adabf544c66f42f41cda15ce1eed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 41/59] fix: a directory that cannot be read completely is not
 opened as a part of itself

---
 pkg/apk/implementation.go |  3 +++
 pkg/fs/rwosfs.go          | 28 ++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index a422d84..4948fdb 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -84,6 +84,9 @@ func New(options ...Option) (*APK, error) {
 	if opt.fs == nil {
 		// This is expensive so we only want to do it if we aren't passed WithFS.
 		opt.fs = apkfs.DirFS("/")
+		if opt.fs == nil {
+			return nil, errors.New("unable to read the root directory")
+		}
 	}
 
 	return &APK{
diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 292e4e0..7e3da6e 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -15,6 +15,7 @@
 package fs
 
 import (
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -97,6 +98,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 				continue
 			}
 			if err := os.WriteFile(filepath.Join(dir, filename), []byte("test"), 0o600); err != nil {
+				_ = os.Remove(filepath.Join(dir, filename))
 				return nil
 			}
 			// see if it exists
@@ -104,7 +106,9 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 				caseSensitive = true
 			}
 			// clean up our own messes
-			_ = os.Remove(filepath.Join(dir, filename))
+			if err := os.Remove(filepath.Join(dir, filename)); err != nil {
+				return nil
+			}
 			break
 		}
 	}
@@ -121,7 +125,11 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 	// need to populate the overrides with appropriate info
 	root := os.DirFS(dir)
 
-	_ = fs.WalkDir(root, ".", func(path string, d fs.DirEntry, err error) error {
+	err = fs.WalkDir(root, ".", func(path string, d fs.DirEntry, err error) error {
+		if notThere(err) {
+			// what may not be seen, or has just gone, is left out
+			return nil
+		}
 		if err != nil {
 			return err
 		}
@@ -129,6 +137,9 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 			return nil
 		}
 		fi, err := d.Info()
+		if notThere(err) {
+			return nil
+		}
 		if err != nil {
 			return err
 		}
@@ -167,12 +178,25 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 				_ = memFile.Close()
 			}
 		}
+		if notThere(err) {
+			return nil
+		}
 		return err
 	})
+	if err != nil {
+		// a part of the directory is not the directory
+		return nil
+	}
 
 	return f
 }
 
+// notThere says whether err means that something may not be seen, or has just gone
+// (like a process below /proc), and not that it could not be read.
+func notThere(err error) bool {
+	return errors.Is(err, fs.ErrPermission) || errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ESRCH)
+}
+
 // dirFS represents a FullFS implementation based on a directory on disk.
 // For those features that are not supported, e.g. activities that are non-permissioned
 // or unsupported by the underlying filesystem or operating system, it keeps a separate map
-- 
2.43.0


From d08dc143f5ce79bea47f59b00f4be971229299c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 42/59] fix: an index signed by somebody else meanwhile is not
 signed again

---
 pkg/signature/sign.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 11515b7..bef1a1d 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -36,7 +36,13 @@ import (
 
 func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 	log := clog.FromContext(ctx)
-	is, err := indexIsAlreadySigned(indexFile)
+	// What is looked at is what gets signed, also if somebody else signs the index meanwhile.
+	indexData, indexDigest, err := ReadAndHashIndexFile(indexFile)
+	if err != nil {
+		return err
+	}
+
+	is, err := indexIsAlreadySigned(indexFile, indexData)
 	if err != nil {
 		return err
 	}
@@ -47,11 +53,6 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 
 	log.Infof("signing index %s with key %s", indexFile, signingKey)
 
-	indexData, indexDigest, err := ReadAndHashIndexFile(indexFile)
-	if err != nil {
-		return err
-	}
-
 	sigData, err := RSASignSHA1Digest(indexDigest, signingKey, "")
 	if err != nil {
 		return fmt.Errorf("unable to sign index: %w", err)
@@ -126,14 +127,8 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 	return nil
 }
 
-func indexIsAlreadySigned(indexFile string) (bool, error) {
-	index, err := os.Open(indexFile)
-	if err != nil {
-		return false, fmt.Errorf("cannot open index file %s: %w", indexFile, err)
-	}
-	defer index.Close()
-
-	gzi, err := gzip.NewReader(index)
+func indexIsAlreadySigned(indexFile string, indexData []byte) (bool, error) {
+	gzi, err := gzip.NewReader(bytes.NewReader(indexData))
 	if err != nil {
 		return false, fmt.Errorf("cannot open index file %s as gzip: %w", indexFile, err)
 	}
-- 
2.43.0


From d5d3af8794fa3efac3b57cb34a0821a6ce44d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 43/59] fix: the installed database keeps the setuid, setgid
 and sticky bits of files

---
 pkg/apk/installed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 8339f17..5648116 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -66,7 +66,7 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 		pkgLines = append(pkgLines, "F:")
 	}
 	for _, f := range sortedFiles {
-		perm := f.Mode & 0777
+		perm := f.Mode & 07777
 		user := f.Uid
 		group := f.Gid
 
-- 
2.43.0


From a7592a3282f6c50597294a49b2edf707a37dea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 44/59] fix: hard links and absolute links within a package are
 followed from its root

---
 internal/tarfs/tarfs.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/tarfs/tarfs.go b/internal/tarfs/tarfs.go
index d202bd6..9ba4b9f 100644
--- a/internal/tarfs/tarfs.go
+++ b/internal/tarfs/tarfs.go
@@ -24,6 +24,7 @@ import (
 	"io/fs"
 	"path"
 	"slices"
+	"strings"
 	"time"
 )
 
@@ -120,10 +121,13 @@ func (fsys *FS) open(name string, hops int) (fs.File, error) {
 	e := fsys.files[i]
 
 	switch e.Header.Typeflag {
-	case tar.TypeSymlink, tar.TypeLink:
+	case tar.TypeLink:
+		// Unlike those of symlinks, the targets of hard links are relative to the root of the archive.
+		return fsys.open(path.Clean(e.Header.Linkname), hops+1)
+	case tar.TypeSymlink:
 		link := e.Header.Linkname
 		if path.IsAbs(link) {
-			return fsys.open(link, hops+1)
+			return fsys.open(strings.TrimPrefix(path.Clean(link), "/"), hops+1)
 		}
 
 		return fsys.open(path.Join(e.dir, link), hops+1)
-- 
2.43.0


From 65a2ce3210637836bab52a9d077660eeb8adb587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 45/59] fix: directories whose names end in a slash are part of
 a package seen as a file system

---
 internal/tarfs/tarfs.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/tarfs/tarfs.go b/internal/tarfs/tarfs.go
index 9ba4b9f..1709c27 100644
--- a/internal/tarfs/tarfs.go
+++ b/internal/tarfs/tarfs.go
@@ -218,8 +218,11 @@ func New(ra io.ReaderAt, size int64) (*FS, error) {
 		if err != nil {
 			return nil, err
 		}
-		dir := path.Dir(hdr.Name)
+		// The name of a directory may end in a slash.
+		name := strings.TrimSuffix(hdr.Name, "/")
+		dir := path.Dir(name)
 		fsys.index[hdr.Name] = len(fsys.files)
+		fsys.index[name] = len(fsys.files)
 		fsys.files = append(fsys.files, &Entry{
 			Header: *hdr,
 			Offset: cr.n,
@@ -227,7 +230,9 @@ func New(ra io.ReaderAt, size int64) (*FS, error) {
 			fi:     hdr.FileInfo(),
 		})
 
-		dirCount[dir]++
+		if name != "." {
+			dirCount[dir]++
+		}
 	}
 
 	// Pre-generate the results of ReadDir so we don't allocate a ton if fs.WalkDir calls us.
@@ -237,7 +242,10 @@ func New(ra io.ReaderAt, size int64) (*FS, error) {
 	}
 
 	for _, f := range fsys.files {
-		fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
+		// The root is not an entry of itself.
+		if f.Name() != "." {
+			fsys.dirs[f.dir] = append(fsys.dirs[f.dir], f)
+		}
 	}
 
 	for _, files := range fsys.dirs {
-- 
2.43.0


From d6b7731bb9d21bffb415b5af762458907fd7b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 46/59] fix: a directory of a package lists its own entries, in
 order

---
 pkg/fs/apkfs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/apkfs.go b/pkg/fs/apkfs.go
index 0c8ddc5..7a1073f 100644
--- a/pkg/fs/apkfs.go
+++ b/pkg/fs/apkfs.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/fs"
 	"os"
+	"sort"
 	"strings"
 	"time"
 
@@ -247,13 +248,14 @@ func (a *APKFS) ReadDir(path string) ([]fs.DirEntry, error) {
 			pathPrefix += "/"
 		}
 		if strings.HasPrefix(currentPath, pathPrefix) {
-			if strings.LastIndex(currentPath, "/") > len(path)+1 {
+			if strings.Contains(currentPath[len(pathPrefix):], "/") {
 				// some sub-sub directory, not yet
 				continue
 			}
 			results = append(results, &apkFSFileInfo{currentFile, currentPath[strings.LastIndex(currentPath, "/"):]})
 		}
 	}
+	sort.Slice(results, func(i, j int) bool { return results[i].Name() < results[j].Name() })
 	return results, nil
 }
 
-- 
2.43.0


From 7700f29f63e8989f3ccc836952fee9c38a6a7e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 47/59] fix: packages opened as file systems have hard links
 and directories whose names end in a slash

---
 pkg/fs/apkfs.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/fs/apkfs.go b/pkg/fs/apkfs.go
index 7a1073f..afa0c23 100644
--- a/pkg/fs/apkfs.go
+++ b/pkg/fs/apkfs.go
@@ -111,12 +111,20 @@ func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS,
 			return nil, err
 		}
 
-		currentEntry := apkFSFile{mode: correctMode(fs.FileMode(header.Mode), header), name: "/" + header.Name,
+		// The name of a directory may end in a slash, that of the root is a dot.
+		name := correctApkFSPath(strings.TrimSuffix(header.Name, "/"))
+		currentEntry := apkFSFile{mode: correctMode(fs.FileMode(header.Mode), header), name: name,
 			uid: header.Uid, gid: header.Gid,
 			size: uint64(header.Size), modTime: header.ModTime,
 			createTime: header.ChangeTime,
 			linkTarget: header.Linkname, isDir: header.Typeflag == tar.TypeDir,
-			xattrs: make(map[string][]byte), fs: &result}
+			xattrs: make(map[string][]byte), fs: &result, content: header.Name}
+		if header.Typeflag == tar.TypeLink {
+			// A hard link has the content of the file that it is another name of.
+			if target, ok := result.files[correctApkFSPath(header.Linkname)]; ok {
+				currentEntry.size, currentEntry.content = target.size, target.content
+			}
+		}
 		for k, v := range header.PAXRecords {
 			// If this trend continues then it would be wise to move the
 			// named constant for this into a place accessible from here
@@ -125,7 +133,7 @@ func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS,
 				currentEntry.xattrs[attrname] = []byte(v)
 			}
 		}
-		result.files["/"+header.Name] = &currentEntry
+		result.files[name] = &currentEntry
 	}
 
 	result.files["/"] = &apkFSFile{mode: 0777 | fs.ModeDir, name: "/",
@@ -159,6 +167,7 @@ type apkFSFile struct {
 	xattrs     map[string][]byte
 	isDir      bool
 	fs         *APKFS
+	content    string // the name of the archive's entry that holds the content
 	// The following fields are not initialized in the copies held
 	// by the apkfs object.
 	fileDescriptor io.Closer
@@ -171,17 +180,17 @@ func (a *apkFSFile) acquireCopy() *apkFSFile {
 	return &apkFSFile{mode: a.mode, uid: a.uid, gid: a.gid, size: a.size,
 		name: a.name, modTime: a.modTime, createTime: a.createTime, linkTarget: a.linkTarget,
 		linkCount: a.linkCount, xattrs: a.xattrs, isDir: a.isDir, fs: a.fs,
-		fileDescriptor: nil, tarReader: nil}
+		content: a.content, fileDescriptor: nil, tarReader: nil}
 }
 func (a *apkFSFile) seekTo(reader *tar.Reader) error {
 	for {
 		header, err := reader.Next()
-		if err == os.ErrNotExist {
+		if err == io.EOF {
 			break
 		} else if err != nil {
 			return err
 		}
-		if header.Name == a.name[1:] {
+		if header.Name == a.content {
 			return nil
 		}
 	}
@@ -219,7 +228,7 @@ func correctApkFSPath(path string) string {
 	if path == "." {
 		path = "/"
 	}
-	if len(path) > 3 && path[:2] == "./" {
+	if len(path) > 2 && path[:2] == "./" {
 		path = path[1:]
 	}
 
-- 
2.43.0


From 4eb9d03a3af52e1fa912f71a8488520069580d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 48/59] fix: a package opened as a file system closes its
 archive when a file cannot be opened

---
 pkg/fs/apkfs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/fs/apkfs.go b/pkg/fs/apkfs.go
index afa0c23..810db95 100644
--- a/pkg/fs/apkfs.go
+++ b/pkg/fs/apkfs.go
@@ -57,6 +57,7 @@ func (a *APKFS) getTarReader() (*os.File, *tar.Reader, error) {
 	}
 	gzipStream, err := gzip.NewReader(file)
 	if err != nil {
+		file.Close()
 		return nil, nil, err
 	}
 	tr := tar.NewReader(gzipStream)
@@ -283,6 +284,7 @@ func (a *APKFS) Open(path string) (fs.File, error) {
 	}
 	err = fileCopy.seekTo(fileCopy.tarReader)
 	if err != nil {
+		fileCopy.Close()
 		return nil, err
 	}
 	return fileCopy, nil
-- 
2.43.0


From bb345987b3de358a8c15294101ed444fe33cc4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 49/59] fix: absolute link targets with .. in them are followed
 in the in-memory file system

---
 pkg/fs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index c07e142..7f88539 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -105,7 +105,7 @@ func (m *memFS) resolve(path string, linkDepth int) (*node, string, error) {
 // absTarget returns the absolute path that a link in directory dir with the given target leads to.
 func absTarget(dir, target string) string {
 	if filepath.IsAbs(target) {
-		return target
+		return filepath.Clean(target)
 	}
 	return filepath.Join(dir, target)
 }
-- 
2.43.0


From 77589a0c58dbf9552c8c97207502240c65267f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 50/59] fix: links in a directory-backed file system lead from
 its root and not from that of the disk

---
 pkg/fs/rwosfs.go | 149 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 119 insertions(+), 30 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 7e3da6e..181cf9a 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -243,7 +243,7 @@ func (f *dirFS) Open(name string) (fs.File, error) {
 }
 
 func (f *dirFS) open(name string) (*fileImpl, error) {
-	fullpath, err := f.sanitizePath(name)
+	fullpath, err := f.onDisk(name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -290,15 +290,16 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 // This only works if the user reading the file actually has
 // permissions to change the file permissions.
 func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
-	var (
-		file File
-		err  error
-	)
+	var file File
+	fullpath, err := f.onDisk(name, flag&(os.O_CREATE|os.O_EXCL) != os.O_CREATE|os.O_EXCL)
+	if err != nil {
+		return nil, err
+	}
 	if flag&os.O_CREATE == os.O_CREATE {
 		var diskFile *os.File
 		// do we create it on disk?
 		if f.createOnDisk(name) {
-			diskFile, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
+			diskFile, err = os.OpenFile(fullpath, flag, perm)
 			if err != nil {
 				f.notCreated(name)
 				return nil, err
@@ -318,7 +319,7 @@ func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error)
 		}
 	} else {
 		if f.caseSensitiveOnDisk(name) {
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
+			file, err = os.OpenFile(fullpath, flag, perm)
 		} else {
 			file, err = f.overrides.OpenFile(name, flag, perm)
 		}
@@ -343,7 +344,11 @@ func (f *dirFS) Stat(name string) (fs.FileInfo, error) {
 		return nil, err
 	}
 	if f.caseSensitiveOnDisk(name) {
-		fi, err = os.Stat(filepath.Join(f.base, name))
+		fullpath, err := f.onDisk(name, true)
+		if err != nil {
+			return nil, err
+		}
+		fi, err = os.Stat(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -362,7 +367,11 @@ func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
 	}
 	fi := mi
 	if f.caseSensitiveOnDisk(name) {
-		fi, err = os.Lstat(filepath.Join(f.base, name))
+		fullpath, err := f.onDisk(name, false)
+		if err != nil {
+			return nil, err
+		}
+		fi, err = os.Lstat(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -381,7 +390,11 @@ func (f *dirFS) Create(name string) (File, error) {
 
 func (f *dirFS) Remove(name string) error {
 	if f.caseSensitiveOnDisk(name) {
-		if err := os.Remove(filepath.Join(f.base, name)); err != nil {
+		fullpath, err := f.onDisk(name, false)
+		if err != nil {
+			return err
+		}
+		if err := os.Remove(fullpath); err != nil {
 			return err
 		}
 		f.removedOnDisk(name)
@@ -396,7 +409,11 @@ func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
 		err           error
 	)
 	if f.caseSensitiveOnDisk(name) {
-		onDisk, err = os.ReadDir(filepath.Join(f.base, name))
+		fullpath, err := f.onDisk(name, true)
+		if err != nil {
+			return nil, err
+		}
+		onDisk, err = os.ReadDir(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -434,7 +451,11 @@ func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
 }
 func (f *dirFS) ReadFile(name string) ([]byte, error) {
 	if f.caseSensitiveOnDisk(name) {
-		return os.ReadFile(filepath.Join(f.base, name))
+		fullpath, err := f.onDisk(name, true)
+		if err != nil {
+			return nil, err
+		}
+		return os.ReadFile(fullpath)
 	}
 	return f.overrides.ReadFile(name)
 }
@@ -458,7 +479,11 @@ func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
 
 func (f *dirFS) Readnod(name string) (dev int, err error) {
 	if f.caseSensitiveOnDisk(name) {
-		_, err = os.Stat(filepath.Join(f.base, name))
+		fullpath, err := f.onDisk(name, true)
+		if err != nil {
+			return 0, err
+		}
+		_, err = os.Stat(fullpath)
 		if err != nil {
 			return 0, err
 		}
@@ -469,13 +494,16 @@ func (f *dirFS) Readnod(name string) (dev int, err error) {
 func (f *dirFS) Link(oldname, newname string) error {
 	// for hardlink, we cannot take target as is, as it might be outside of the base.
 	// So we must sanitize it. It should point to a file that is within the filesystem.
-	target := filepath.Join(f.base, oldname)
-	target = filepath.Clean(target)
-	if !strings.HasPrefix(target, f.base) {
-		return fmt.Errorf("hardlink target %s is outside of the filesystem", target)
+	target, err := f.onDisk(oldname, false)
+	if err != nil {
+		return fmt.Errorf("hardlink target %s is outside of the filesystem: %w", oldname, err)
+	}
+	fullpath, err := f.onDisk(newname, false)
+	if err != nil {
+		return err
 	}
 	if f.createOnDisk(newname) {
-		if err := os.Link(target, filepath.Join(f.base, newname)); err != nil {
+		if err := os.Link(target, fullpath); err != nil {
 			f.notCreated(newname)
 			return err
 		}
@@ -487,8 +515,12 @@ func (f *dirFS) Symlink(oldname, newname string) error {
 	// For symlink, take target as is.
 	// If it is outside of the base, it will be resolved by Readlink.
 	// This enables proper symlink behaviour.
+	fullpath, err := f.onDisk(newname, false)
+	if err != nil {
+		return err
+	}
 	if f.createOnDisk(newname) {
-		if err := os.Symlink(oldname, filepath.Join(f.base, newname)); err != nil {
+		if err := os.Symlink(oldname, fullpath); err != nil {
 			f.notCreated(newname)
 			return err
 		}
@@ -499,11 +531,19 @@ func (f *dirFS) Symlink(oldname, newname string) error {
 func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 	// just in case, because some underlying systems miss this
 	fullPerm := os.ModeDir | perm
+	fullpath, err := f.onDisk(name, true)
+	if err != nil {
+		return err
+	}
 	if f.createOnDisk(name) {
-		if err := os.MkdirAll(filepath.Join(f.base, name), fullPerm); err != nil {
+		if err := os.MkdirAll(fullpath, fullPerm); err != nil {
 			// keep track of those parents that we did create
 			for dir := filepath.Dir(name); dir != "." && dir != pathSep; dir = filepath.Dir(dir) {
-				if fi, serr := os.Stat(filepath.Join(f.base, dir)); serr == nil && fi.IsDir() {
+				fulldir, serr := f.onDisk(dir, true)
+				if serr != nil {
+					continue
+				}
+				if fi, serr := os.Stat(fulldir); serr == nil && fi.IsDir() {
 					_ = f.overrides.MkdirAll(dir, fullPerm)
 					break
 				}
@@ -518,8 +558,12 @@ func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
 	// just in case, because some underlying systems miss this
 	fullPerm := os.ModeDir | perm
+	fullpath, err := f.onDisk(name, false)
+	if err != nil {
+		return err
+	}
 	if f.createOnDisk(name) {
-		if err := os.Mkdir(filepath.Join(f.base, name), fullPerm); err != nil {
+		if err := os.Mkdir(fullpath, fullPerm); err != nil {
 			f.notCreated(name)
 			return err
 		}
@@ -529,28 +573,40 @@ func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
 
 func (f *dirFS) Chmod(path string, perm fs.FileMode) error {
 	if f.caseSensitiveOnDisk(path) {
+		fullpath, err := f.onDisk(path, true)
+		if err != nil {
+			return err
+		}
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chmod(filepath.Join(f.base, path), perm)
+		_ = os.Chmod(fullpath, perm)
 	}
 	return f.overrides.Chmod(path, perm)
 }
 func (f *dirFS) Chown(path string, uid, gid int) error {
 	if f.caseSensitiveOnDisk(path) {
+		fullpath, err := f.onDisk(path, true)
+		if err != nil {
+			return err
+		}
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chown(filepath.Join(f.base, path), uid, gid)
+		_ = os.Chown(fullpath, uid, gid)
 	}
 	return f.overrides.Chown(path, uid, gid)
 }
 
 func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
+	fullpath, err := f.onDisk(name, false)
+	if err != nil {
+		return err
+	}
 	if f.createOnDisk(name) {
-		err := unix.Mknod(filepath.Join(f.base, name), mode, dev)
+		err := unix.Mknod(fullpath, mode, dev)
 		// what if we could not create it? Just create a regular file there, and memory will override
 		if os.IsExist(err) {
 			return err
 		}
 		if err != nil {
-			file, err := os.OpenFile(filepath.Join(f.base, name), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0)
+			file, err := os.OpenFile(fullpath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0)
 			if err != nil {
 				f.notCreated(name)
 				return err
@@ -581,12 +637,45 @@ func (f *dirFS) sanitizePath(p string) (v string, err error) {
 	return sanitizePath(f.base, p)
 }
 func sanitizePath(base, p string) (v string, err error) {
-	v = filepath.Join(base, p)
-	if strings.HasPrefix(filepath.Clean(v), base) {
-		return v, nil
+	if c := filepath.Clean(p); c == ".." || strings.HasPrefix(c, ".."+pathSep) {
+		return "", fmt.Errorf("%s: %s", "content filepath is tainted", p)
 	}
+	return filepath.Join(base, p), nil
+}
 
-	return "", fmt.Errorf("%s: %s", "content filepath is tainted", p)
+// onDisk returns the path on disk of name. Symlinks lead from the root of the filesystem, whatever they
+// point to, and not from that of the disk, so they are followed here; the last one only if follow is set.
+func (f *dirFS) onDisk(name string, follow bool) (string, error) {
+	if _, err := f.sanitizePath(name); err != nil {
+		return "", err
+	}
+	var (
+		current = pathSep
+		parts   = strings.Split(filepath.Clean(name), pathSep)
+		links   int
+	)
+	for len(parts) > 0 {
+		next := filepath.Join(current, parts[0])
+		parts = parts[1:]
+		if len(parts) == 0 && !follow {
+			current = next
+			break
+		}
+		target, err := f.overrides.Readlink(next)
+		if err != nil {
+			// not a link
+			current = next
+			continue
+		}
+		if links++; links > maxLinks {
+			return "", fmt.Errorf("too many links: %s", name)
+		}
+		if filepath.IsAbs(target) {
+			current = pathSep
+		}
+		parts = append(strings.Split(filepath.Clean(target), pathSep), parts...)
+	}
+	return filepath.Join(f.base, current), nil
 }
 
 func (f *dirFS) caseSensitiveOnDisk(p string) bool {
-- 
2.43.0


From dd5a7fa125b63bb02aad359b2d3339bed430bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 51/59] fix: on a case-insensitive disk, what is below a
 variant of a directory, or left when another variant goes, stays in memory

---
 pkg/fs/rwosfs.go | 75 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 181cf9a..45355c0 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -397,9 +397,12 @@ func (f *dirFS) Remove(name string) error {
 		if err := os.Remove(fullpath); err != nil {
 			return err
 		}
-		f.removedOnDisk(name)
 	}
-	return f.overrides.Remove(name)
+	if err := f.overrides.Remove(name); err != nil {
+		return err
+	}
+	f.removed(name)
+	return nil
 }
 
 func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -684,13 +687,13 @@ func (f *dirFS) caseSensitiveOnDisk(p string) bool {
 	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
-	p = standardizePath(p)
-	key := strings.ToLower(p)
-	result, ok := f.caseMap[key]
-	if !ok {
-		return true
+	for _, dir := range pathAndParents(p) {
+		if result, ok := f.caseMap[strings.ToLower(dir)]; ok && result != dir {
+			// what is in a directory that is in memory is there too
+			return false
+		}
 	}
-	return result == p
+	return true
 }
 
 // createOnDisk given a path p, determine if it should be created on disk, and, if relevant,
@@ -703,30 +706,45 @@ func (f *dirFS) createOnDisk(p string) bool {
 	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
-	p = standardizePath(p)
-	key := strings.ToLower(p)
-	result, ok := f.caseMap[key]
-	if !ok {
-		f.caseMap[key] = p
-		return true
+	for _, dir := range pathAndParents(p) {
+		key := strings.ToLower(dir)
+		result, ok := f.caseMap[key]
+		if !ok {
+			f.caseMap[key] = dir
+		} else if result != dir {
+			return false
+		}
 	}
-	return result == p
+	return true
 }
 
-// removedOnDisk given a path p that has been removed from disk, remove it from the caseMap, if relevant.
-func (f *dirFS) removedOnDisk(p string) {
+// removed given a path p that has been removed, remove it from the caseMap, if relevant. As long as there
+// are other variants of it, which are in memory, they stay there.
+func (f *dirFS) removed(p string) {
 	if f.caseMap == nil {
 		return
 	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
-	delete(f.caseMap, strings.ToLower(standardizePath(p)))
+	p = standardizePath(p)
+	des, _ := f.overrides.ReadDir(filepath.Dir(p))
+	for _, de := range des {
+		if strings.ToLower(de.Name()) == strings.ToLower(filepath.Base(p)) {
+			return
+		}
+	}
+	delete(f.caseMap, strings.ToLower(p))
 }
 
-// notCreated forgets that a path was to be created on disk, if it failed and is not there.
+// notCreated forgets that a path, and what leads to it, was to be created on disk, if it failed and is not there.
 func (f *dirFS) notCreated(p string) {
-	if _, err := f.overrides.Lstat(p); err != nil {
-		f.removedOnDisk(p)
+	if f.caseMap == nil {
+		return
+	}
+	for _, dir := range pathAndParents(p) {
+		if _, err := f.overrides.Lstat(dir); err != nil {
+			f.removed(dir)
+		}
 	}
 }
 
@@ -801,8 +819,17 @@ func (d *dirEntry) Info() (fs.FileInfo, error) {
 }
 
 func standardizePath(p string) string {
-	if p[0] == '/' {
-		p = p[1:]
+	return strings.TrimPrefix(filepath.Clean(p), pathSep)
+}
+
+// pathAndParents returns the directories that lead to p, from the top, and p.
+func pathAndParents(p string) []string {
+	p = standardizePath(p)
+	var paths []string
+	for i, c := range p {
+		if c == filepath.Separator {
+			paths = append(paths, p[:i])
+		}
 	}
-	return p
+	return append(paths, p)
 }
-- 
2.43.0


From f540878c5b896cac3cd2ac722613f4b66196ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 52/59] fix: a disk that fails while it is tested is not taken
 for a case-sensitive one

---
 pkg/fs/rwosfs.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 45355c0..69aeb30 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -102,9 +102,13 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 				return nil
 			}
 			// see if it exists
-			if _, err := os.Stat(filepath.Join(dir, strings.ToUpper(filename))); err != nil {
-				caseSensitive = true
+			_, err := os.Stat(filepath.Join(dir, strings.ToUpper(filename)))
+			if err != nil && !os.IsNotExist(err) {
+				// neither there nor not there
+				_ = os.Remove(filepath.Join(dir, filename))
+				return nil
 			}
+			caseSensitive = err != nil
 			// clean up our own messes
 			if err := os.Remove(filepath.Join(dir, filename)); err != nil {
 				return nil
-- 
2.43.0


From 2b47988c2c275a1b942f286b6bc8bc6a3e4fe8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 53/59] fix: reading an unreadable file leaves its permissions
 as they were, also when others read it at the same time

---
 pkg/fs/rwosfs.go | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 69aeb30..c95fa83 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -225,6 +225,8 @@ type dirFS struct {
 	// can exist on disk. Maps the case-sensitive to the case-insensitive variant
 	caseMap      map[string]string
 	caseMapMutex sync.Mutex
+	// permsMutex is held while the permissions of a file on disk are changed to read it
+	permsMutex sync.Mutex
 }
 
 func (f *dirFS) Readlink(name string) (string, error) {
@@ -239,7 +241,7 @@ func (f *dirFS) Readlink(name string) (string, error) {
 
 // Open open a file for reading. Returns fs.File.
 // If the file has the wrong permissions for reading, it tries to
-// change them, and then change them back when closing.
+// change them, and then change them back once it is open.
 // This only works if the user reading the file actually has
 // permissions to change the file permissions.
 func (f *dirFS) Open(name string) (fs.File, error) {
@@ -259,6 +261,9 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 		if !os.IsPermission(err) {
 			return nil, err
 		}
+		// Only one at a time changes permissions and changes them back, or they get in each other's way.
+		f.permsMutex.Lock()
+		defer f.permsMutex.Unlock()
 		// get the original permissions
 		fi, err := os.Stat(fullpath)
 		if err != nil {
@@ -269,16 +274,16 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 			return nil, fmt.Errorf("unable to read file or change permissions of %s: %w", name, err)
 		}
 		file, err = os.Open(fullpath)
+		// what is open stays open
+		cerr := os.Chmod(fullpath, fi.Mode())
 		if err != nil {
-			_ = os.Chmod(fullpath, fi.Mode())
 			return nil, fmt.Errorf("unable to read file even after change permissions of %s: %w", name, err)
 		}
-		perms := fi.Mode()
-		return &fileImpl{
-			file:  file,
-			path:  fullpath,
-			perms: &perms,
-		}, nil
+		if cerr != nil {
+			_ = file.Close()
+			return nil, fmt.Errorf("unable to restore permissions of %s: %w", name, cerr)
+		}
+		return &fileImpl{file: file}, nil
 	}
 
 	file, err := f.overrides.OpenReaderAt(name)
@@ -288,11 +293,6 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 	return &fileImpl{file: file}, nil
 }
 
-// Open open a file for reading. Returns fs.File.
-// If the file has the wrong permissions for reading, it tries to
-// change them, and then change them back when closing.
-// This only works if the user reading the file actually has
-// permissions to change the file permissions.
 func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
 	var file File
 	fullpath, err := f.onDisk(name, flag&(os.O_CREATE|os.O_EXCL) != os.O_CREATE|os.O_EXCL)
@@ -585,7 +585,9 @@ func (f *dirFS) Chmod(path string, perm fs.FileMode) error {
 			return err
 		}
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
+		f.permsMutex.Lock()
 		_ = os.Chmod(fullpath, perm)
+		f.permsMutex.Unlock()
 	}
 	return f.overrides.Chmod(path, perm)
 }
@@ -755,18 +757,6 @@ func (f *dirFS) notCreated(p string) {
 type file File
 type fileImpl struct {
 	file
-	path  string
-	perms *os.FileMode
-}
-
-func (f fileImpl) Close() error {
-	if err := f.file.Close(); err != nil {
-		return err
-	}
-	if f.perms != nil {
-		return os.Chmod(f.path, *f.perms)
-	}
-	return nil
 }
 
 type fileInfo struct {
-- 
2.43.0


From a614232d5a3d5dfd45b0f2ca772cd904db3b1083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 54/59] fix: of several keys with one name, the last one ends
 up in the keyring, and never a mixture of them

---
 pkg/apk/implementation.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 4948fdb..9cd460f 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -389,8 +389,8 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 
 	var eg errgroup.Group
 
-	for _, element := range keyFiles {
-		element := element
+	for i, element := range keyFiles {
+		i, element := i, element
 		eg.Go(func() error {
 			log.Debugf("installing key %v", element)
 
@@ -452,6 +452,13 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 				return fmt.Errorf("scheme %s not supported", asURL.Scheme)
 			}
 
+			// Of several keys with one name, the last one counts.
+			if slices.ContainsFunc(keyFiles[i+1:], func(other string) bool {
+				return filepath.Base(other) == filepath.Base(element)
+			}) {
+				return nil
+			}
+
 			// #nosec G306 -- apk keyring must be publicly readable
 			if err := a.fs.WriteFile(filepath.Join("etc", "apk", "keys", filepath.Base(element)), data,
 				0o644); err != nil {
-- 
2.43.0


From e0d2b3fecc0a7e0940978b51f6b60771bb8ea454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 55/59] fix: a root that an unprivileged user has initialised
 can be initialised again

---
 pkg/apk/implementation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 9cd460f..53650e6 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -291,6 +291,12 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 			if is, rerr := a.fs.Readnod(e.path); rerr == nil && is == dev {
 				continue
 			}
+			// Where devices could not be created, an empty file was put in its place.
+			if fi, serr := a.fs.Stat(e.path); serr == nil && fi.Mode().IsRegular() && fi.Size() == 0 {
+				if err = a.fs.Remove(e.path); err == nil {
+					err = a.fs.Mknod(e.path, unix.S_IFCHR|perms, dev)
+				}
+			}
 		}
 		if !a.ignoreMknodErrors && err != nil {
 			return fmt.Errorf("failed to create char device %s: %w", e.path, err)
-- 
2.43.0


From 6c8806cc0ac7e180a622e2a423a4bbd2f5799b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 56/59] fix: on a case-insensitive disk, what a path leads to
 through links is the variant that it is without them

---
 pkg/fs/rwosfs.go | 83 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index c95fa83..e239c16 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -148,7 +148,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 			return err
 		}
 		// what is on disk already is the variant that is on disk
-		f.createOnDisk(path)
+		f.createOnDisk(path, false)
 		mode := fi.Mode()
 		perm := mode & (fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
 		switch mode.Type() {
@@ -253,7 +253,7 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 	if err != nil {
 		return nil, err
 	}
-	if f.caseSensitiveOnDisk(name) {
+	if f.caseSensitiveOnDisk(name, true) {
 		file, err := os.Open(fullpath)
 		if err == nil {
 			return &fileImpl{file: file}, nil
@@ -295,17 +295,18 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 
 func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
 	var file File
-	fullpath, err := f.onDisk(name, flag&(os.O_CREATE|os.O_EXCL) != os.O_CREATE|os.O_EXCL)
+	follow := flag&(os.O_CREATE|os.O_EXCL) != os.O_CREATE|os.O_EXCL
+	fullpath, err := f.onDisk(name, follow)
 	if err != nil {
 		return nil, err
 	}
 	if flag&os.O_CREATE == os.O_CREATE {
 		var diskFile *os.File
 		// do we create it on disk?
-		if f.createOnDisk(name) {
+		if f.createOnDisk(name, follow) {
 			diskFile, err = os.OpenFile(fullpath, flag, perm)
 			if err != nil {
-				f.notCreated(name)
+				f.notCreated(name, follow)
 				return nil, err
 			}
 		}
@@ -322,7 +323,7 @@ func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error)
 			file = diskFile
 		}
 	} else {
-		if f.caseSensitiveOnDisk(name) {
+		if f.caseSensitiveOnDisk(name, follow) {
 			file, err = os.OpenFile(fullpath, flag, perm)
 		} else {
 			file, err = f.overrides.OpenFile(name, flag, perm)
@@ -347,7 +348,7 @@ func (f *dirFS) Stat(name string) (fs.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
-	if f.caseSensitiveOnDisk(name) {
+	if f.caseSensitiveOnDisk(name, true) {
 		fullpath, err := f.onDisk(name, true)
 		if err != nil {
 			return nil, err
@@ -370,7 +371,7 @@ func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
 		return nil, err
 	}
 	fi := mi
-	if f.caseSensitiveOnDisk(name) {
+	if f.caseSensitiveOnDisk(name, false) {
 		fullpath, err := f.onDisk(name, false)
 		if err != nil {
 			return nil, err
@@ -393,7 +394,7 @@ func (f *dirFS) Create(name string) (File, error) {
 }
 
 func (f *dirFS) Remove(name string) error {
-	if f.caseSensitiveOnDisk(name) {
+	if f.caseSensitiveOnDisk(name, false) {
 		fullpath, err := f.onDisk(name, false)
 		if err != nil {
 			return err
@@ -415,7 +416,7 @@ func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
 		onDisk, inMem []fs.DirEntry
 		err           error
 	)
-	if f.caseSensitiveOnDisk(name) {
+	if f.caseSensitiveOnDisk(name, true) {
 		fullpath, err := f.onDisk(name, true)
 		if err != nil {
 			return nil, err
@@ -457,7 +458,7 @@ func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	return dirEntries, nil
 }
 func (f *dirFS) ReadFile(name string) ([]byte, error) {
-	if f.caseSensitiveOnDisk(name) {
+	if f.caseSensitiveOnDisk(name, true) {
 		fullpath, err := f.onDisk(name, true)
 		if err != nil {
 			return nil, err
@@ -467,7 +468,7 @@ func (f *dirFS) ReadFile(name string) ([]byte, error) {
 	return f.overrides.ReadFile(name)
 }
 func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
-	if !f.createOnDisk(name) {
+	if !f.createOnDisk(name, true) {
 		// this is the actual file because of case sensitivity, so use the actual content
 		return f.overrides.WriteFile(name, b, mode)
 	}
@@ -485,7 +486,7 @@ func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
 }
 
 func (f *dirFS) Readnod(name string) (dev int, err error) {
-	if f.caseSensitiveOnDisk(name) {
+	if f.caseSensitiveOnDisk(name, true) {
 		fullpath, err := f.onDisk(name, true)
 		if err != nil {
 			return 0, err
@@ -509,9 +510,9 @@ func (f *dirFS) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
-	if f.createOnDisk(newname) {
+	if f.createOnDisk(newname, false) {
 		if err := os.Link(target, fullpath); err != nil {
-			f.notCreated(newname)
+			f.notCreated(newname, false)
 			return err
 		}
 	}
@@ -526,9 +527,9 @@ func (f *dirFS) Symlink(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
-	if f.createOnDisk(newname) {
+	if f.createOnDisk(newname, false) {
 		if err := os.Symlink(oldname, fullpath); err != nil {
-			f.notCreated(newname)
+			f.notCreated(newname, false)
 			return err
 		}
 	}
@@ -542,7 +543,7 @@ func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 	if err != nil {
 		return err
 	}
-	if f.createOnDisk(name) {
+	if f.createOnDisk(name, true) {
 		if err := os.MkdirAll(fullpath, fullPerm); err != nil {
 			// keep track of those parents that we did create
 			for dir := filepath.Dir(name); dir != "." && dir != pathSep; dir = filepath.Dir(dir) {
@@ -555,7 +556,7 @@ func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 					break
 				}
 			}
-			f.notCreated(name)
+			f.notCreated(name, true)
 			return err
 		}
 	}
@@ -569,9 +570,9 @@ func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
 	if err != nil {
 		return err
 	}
-	if f.createOnDisk(name) {
+	if f.createOnDisk(name, false) {
 		if err := os.Mkdir(fullpath, fullPerm); err != nil {
-			f.notCreated(name)
+			f.notCreated(name, false)
 			return err
 		}
 	}
@@ -579,7 +580,7 @@ func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
 }
 
 func (f *dirFS) Chmod(path string, perm fs.FileMode) error {
-	if f.caseSensitiveOnDisk(path) {
+	if f.caseSensitiveOnDisk(path, true) {
 		fullpath, err := f.onDisk(path, true)
 		if err != nil {
 			return err
@@ -592,7 +593,7 @@ func (f *dirFS) Chmod(path string, perm fs.FileMode) error {
 	return f.overrides.Chmod(path, perm)
 }
 func (f *dirFS) Chown(path string, uid, gid int) error {
-	if f.caseSensitiveOnDisk(path) {
+	if f.caseSensitiveOnDisk(path, true) {
 		fullpath, err := f.onDisk(path, true)
 		if err != nil {
 			return err
@@ -608,7 +609,7 @@ func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
 	if err != nil {
 		return err
 	}
-	if f.createOnDisk(name) {
+	if f.createOnDisk(name, false) {
 		err := unix.Mknod(fullpath, mode, dev)
 		// what if we could not create it? Just create a regular file there, and memory will override
 		if os.IsExist(err) {
@@ -617,7 +618,7 @@ func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
 		if err != nil {
 			file, err := os.OpenFile(fullpath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0)
 			if err != nil {
-				f.notCreated(name)
+				f.notCreated(name, false)
 				return err
 			}
 			_ = file.Close()
@@ -655,6 +656,15 @@ func sanitizePath(base, p string) (v string, err error) {
 // onDisk returns the path on disk of name. Symlinks lead from the root of the filesystem, whatever they
 // point to, and not from that of the disk, so they are followed here; the last one only if follow is set.
 func (f *dirFS) onDisk(name string, follow bool) (string, error) {
+	resolved, err := f.resolve(name, follow)
+	if err != nil {
+		return "", err
+	}
+	return filepath.Join(f.base, resolved), nil
+}
+
+// resolve returns where in the filesystem name leads to.
+func (f *dirFS) resolve(name string, follow bool) (string, error) {
 	if _, err := f.sanitizePath(name); err != nil {
 		return "", err
 	}
@@ -684,13 +694,18 @@ func (f *dirFS) onDisk(name string, follow bool) (string, error) {
 		}
 		parts = append(strings.Split(filepath.Clean(target), pathSep), parts...)
 	}
-	return filepath.Join(f.base, current), nil
+	return current, nil
 }
 
-func (f *dirFS) caseSensitiveOnDisk(p string) bool {
+// caseSensitiveOnDisk says whether what is at the path p is on disk. Whatever way leads to it, it is the same,
+// so symlinks are followed; the last one only if follow is set.
+func (f *dirFS) caseSensitiveOnDisk(p string, follow bool) bool {
 	if f.caseMap == nil {
 		return true
 	}
+	if resolved, err := f.resolve(p, follow); err == nil {
+		p = resolved
+	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
 	for _, dir := range pathAndParents(p) {
@@ -706,10 +721,14 @@ func (f *dirFS) caseSensitiveOnDisk(p string) bool {
 // add it to the caseMap. If the file already exists on disk, also returns true.
 // This func is responsible solely for determining if you _should_ created it on disk.
 // If that would cause a conflict, that is up to the calling routing to figure out.
-func (f *dirFS) createOnDisk(p string) bool {
+// Symlinks are followed; the last one only if follow is set.
+func (f *dirFS) createOnDisk(p string, follow bool) bool {
 	if f.caseMap == nil {
 		return true
 	}
+	if resolved, err := f.resolve(p, follow); err == nil {
+		p = resolved
+	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
 	for _, dir := range pathAndParents(p) {
@@ -730,6 +749,9 @@ func (f *dirFS) removed(p string) {
 	if f.caseMap == nil {
 		return
 	}
+	if resolved, err := f.resolve(p, false); err == nil {
+		p = resolved
+	}
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
 	p = standardizePath(p)
@@ -743,10 +765,13 @@ func (f *dirFS) removed(p string) {
 }
 
 // notCreated forgets that a path, and what leads to it, was to be created on disk, if it failed and is not there.
-func (f *dirFS) notCreated(p string) {
+func (f *dirFS) notCreated(p string, follow bool) {
 	if f.caseMap == nil {
 		return
 	}
+	if resolved, err := f.resolve(p, follow); err == nil {
+		p = resolved
+	}
 	for _, dir := range pathAndParents(p) {
 		if _, err := f.overrides.Lstat(dir); err != nil {
 			f.removed(dir)
-- 
2.43.0


From e95c1269c0feb1c4c7c1b84ce043c62b4f13e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 57/59] fix: directories are not created where a link leads
 nowhere

---
 pkg/fs/rwosfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index e239c16..88a4b67 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -543,6 +543,15 @@ func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 	if err != nil {
 		return err
 	}
+	for _, dir := range pathAndParents(name) {
+		if _, err := f.overrides.Readlink(dir); err != nil {
+			continue
+		}
+		// no directories are made where a link leads nowhere
+		if _, err := f.overrides.Stat(dir); err != nil {
+			return err
+		}
+	}
 	if f.createOnDisk(name, true) {
 		if err := os.MkdirAll(fullpath, fullPerm); err != nil {
 			// keep track of those parents that we did create
-- 
2.43.0


From ea837556fa1c2ff02e4deb35a497ba6476fd3909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 58/59] fix: expanding a package that fails closes the files
 that it has opened

---
 pkg/expandapk/expandapk.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index aab85cd..fa40673 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -350,14 +350,24 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 	if err != nil {
 		return nil, err
 	}
-	done := false
+	var (
+		done          bool
+		sw            *expandApkWriter
+		tarfile, data *os.File
+	)
 	defer func() {
 		if !done {
+			// Closing what is closed already, or was never opened, does nothing.
+			if sw != nil {
+				sw.f.Close()
+			}
+			tarfile.Close()
+			data.Close()
 			os.RemoveAll(dir)
 		}
 	}()
 
-	sw, err := newExpandApkWriter(dir, "stream", "tar.gz")
+	sw, err = newExpandApkWriter(dir, "stream", "tar.gz")
 	if err != nil {
 		return nil, fmt.Errorf("expandApk error 1: %w", err)
 	}
@@ -409,7 +419,7 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		} else {
 			// While we verify checksums, also tee the tar to a separate file.
 			tarfilename := strings.TrimSuffix(sw.CurrentName(), ".gz")
-			tarfile, err := os.Create(tarfilename)
+			tarfile, err = os.Create(tarfilename)
 			if err != nil {
 				return nil, fmt.Errorf("opening tar file: %w", err)
 			}
@@ -499,7 +509,7 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 
 	expanded.TarFile = strings.TrimSuffix(expanded.PackageFile, ".gz")
 
-	data, err := expanded.PackageData()
+	data, err = expanded.PackageData()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 45c2f948a5de709b0688433b88a16a99dcf8d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:50 +0000
Subject: [PATCH 59/59] fix: credentials of a host that are only a user name or
 only a password are sent with package and key requests too

---
 pkg/apk/implementation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 53650e6..92993b6 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -436,7 +436,7 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 					pass, _ := asURL.User.Password()
 					req.SetBasicAuth(user, pass)
 					req.URL.User = nil
-				} else if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {
+				} else if a, ok := a.auth[asURL.Host]; ok && (a.user != "" || a.pass != "") {
 					req.SetBasicAuth(a.user, a.pass)
 				}
 
@@ -1132,7 +1132,7 @@ func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.Read
 		if err != nil {
 			return nil, err
 		}
-		if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {
+		if a, ok := a.auth[asURL.Host]; ok && (a.user != "" || a.pass != "") {
 			req.SetBasicAuth(a.user, a.pass)
 		}
 
-- 
2.43.0


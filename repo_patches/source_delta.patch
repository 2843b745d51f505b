From bafd02456c8ad5afb10feb5b91915d5897c709ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 01/13] fix: get-entry-and-proof: read the last data tile at
 its published width

---
 internal/ctmonitor/logic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b2eccfc..a48cfd2 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -473,6 +473,11 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	// Get the entry
 	tile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, leafIndex))
 	tile.L = -1
+	// Special case the final tile to ensure we always fetch a tile that exists
+	sthFinalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, int64(sth.TreeSize)-1))
+	if tile.N == sthFinalTile.N {
+		tile.W = sthFinalTile.W
+	}
 
 	// TODO: add a cache
 	data, err := f.getTile(ctx, tile)
-- 
2.43.0


From 330177f2a955d777e233f46d6a4ba69a66683c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:38 +0000
Subject: [PATCH 02/13] fix: get-entries: return no more entries than the limit

---
 internal/ctmonitor/logic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index a48cfd2..407c606 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -284,8 +284,8 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 	// Limit the number of entries fetched at once
 	limit := int64(f.maxGetEntry)
-	if end-start > limit {
-		end = start + limit
+	if end-start >= limit {
+		end = start + limit - 1
 	}
 
 	sth, err := f.getSth(ctx)
-- 
2.43.0


From dc762e86544679b3e7660f553ad7845b311d7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:40 +0000
Subject: [PATCH 03/13] fix: get-entries: reject a start beyond the published
 tree

---
 internal/ctmonitor/logic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 407c606..8e1f515 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -292,6 +292,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 	if err != nil {
 		return nil, 521, err
 	}
+	if start >= int64(sth.TreeSize) {
+		return nil, 400, fmt.Errorf("start must be less than the tree size")
+	}
 	if end >= int64(sth.TreeSize) {
 		end = int64(sth.TreeSize) - 1
 	}
-- 
2.43.0


From 940431ce49fb68b9eb51cf616d4d44d98b1d0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:41 +0000
Subject: [PATCH 04/13] fix: close the tile backend response bodies

---
 internal/ctmonitor/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctmonitor/storage.go b/internal/ctmonitor/storage.go
index 132c483..406204b 100644
--- a/internal/ctmonitor/storage.go
+++ b/internal/ctmonitor/storage.go
@@ -28,6 +28,7 @@ func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfound
 	if err != nil {
 		return nil, false, err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != 200 {
 		if resp.StatusCode == 404 {
 			return nil, true, errors.New(resp.Status)
-- 
2.43.0


From c5053c196489649b6fb53b0567ac941d7c1718ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:43 +0000
Subject: [PATCH 05/13] fix: close the edge backend response bodies

---
 internal/ctmonitor/fastly.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index 75c3c5b..f1ca68b 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -137,6 +137,7 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 		if err != nil {
 			return simple.CacheEntry{}, err
 		}
+		defer resp.Body.Close()
 
 		if resp.StatusCode != 200 {
 			if resp.StatusCode == 404 {
-- 
2.43.0


From b0502e800ac7f7f0456853c9b964face3f8dcb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:44 +0000
Subject: [PATCH 06/13] fix: report missing objects as missing when running the
 edge locally

---
 internal/ctmonitor/fastly.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index f1ca68b..a1f3898 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -207,12 +207,12 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 	} else {
 		entry, err := cacheFunc()
 		if err != nil {
+			if notFound {
+				return nil, true, err
+			}
 			return nil, false, err
 		}
 		reader = entry.Body
-		if notFound {
-			return nil, true, errors.New("not found")
-		}
 	}
 
 	body, err := io.ReadAll(reader)
-- 
2.43.0


From dd171838ad03ac80dd0da72125cbac2856ce3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 07/13] fix: check the edge backend request for an error before
 using it

---
 internal/ctmonitor/fastly.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index a1f3898..35432a2 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -127,12 +127,12 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 		f.requests++
 
 		req, err := fsthttp.NewRequest("GET", url, nil)
-		req.CacheOptions = fsthttp.CacheOptions{
-			Pass: true,
-		}
 		if err != nil {
 			return simple.CacheEntry{}, err
 		}
+		req.CacheOptions = fsthttp.CacheOptions{
+			Pass: true,
+		}
 		resp, err := req.Send(ctx, f.backend)
 		if err != nil {
 			return simple.CacheEntry{}, err
-- 
2.43.0


From cbe36a9144a9b0c1b9cb037acb960ba772062b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:10 +0000
Subject: [PATCH 08/13] fix: FsStorage: replace objects atomically

---
 internal/ctsubmit/storage.go | 45 +++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/internal/ctsubmit/storage.go b/internal/ctsubmit/storage.go
index a6e2ee7..34cc7b2 100644
--- a/internal/ctsubmit/storage.go
+++ b/internal/ctsubmit/storage.go
@@ -113,30 +113,33 @@ func (f *FsStorage) Get(ctx context.Context, key string) ([]byte, error) {
 func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 	filePath := f.root + "/" + key
 
-	// Attempt to write the file
-	err := os.WriteFile(filePath, data, 0644)
-	if err == nil {
-		// No error, file written successfully
-		return nil
+	// Create the directory and any necessary parent directories
+	dir := filepath.Dir(filePath)
+	if err := os.MkdirAll(dir, 0755); err != nil {
+		return fmt.Errorf("failed to create directories: %w", err)
 	}
 
-	// Check if the error is related to missing directories
-	if os.IsNotExist(err) {
-		// Extract the directory path from the file path
-		dir := filepath.Dir(filePath)
-
-		// Create the directory and any necessary parent directories
-		mkdirErr := os.MkdirAll(dir, 0755)
-		if mkdirErr != nil {
-			return fmt.Errorf("failed to create directories: %w", mkdirErr)
-		}
-
-		// Retry writing the file after creating directories
-		return os.WriteFile(filePath, data, 0644)
+	// Write a temporary file and move it into place, so that neither a reader
+	// nor a restart after a crash ever sees a partially written object
+	tmp, err := os.CreateTemp(dir, ".tmp-*")
+	if err != nil {
+		return err
 	}
-
-	// Return the original error if it's not related to missing directories
-	return err
+	defer os.Remove(tmp.Name())
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), filePath)
 }
 
 func (f *FsStorage) Exists(ctx context.Context, key string) (bool, error) {
-- 
2.43.0


From 39b621901ddbf69fd2dd6ffc164199e56b75bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 09/13] fix: verify the signature itself for RSA tree heads

The RSA branch of the note verifier checked the whole RFC6962NoteSignature,
timestamp and header included, against the digest, so no RSA tree head ever
verified.
---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index 08a1a58..c50b40f 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -221,7 +221,7 @@ func NewRFC6962Verifier(name string, key crypto.PublicKey, tf func(uint64)) (not
 			if sigAlg != 1 {
 				return false
 			}
-			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], sig) == nil
+			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], signature) == nil
 		case *ecdsa.PublicKey:
 			if sigAlg != 3 {
 				return false
-- 
2.43.0


From b843b51f7fea5ad5bfc50eddfec2e43255231407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 10/13] fix: answer 503 instead of waiting forever when the
 pool is full

---
 internal/ctsubmit/logic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 757712b..ed1bde2 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -173,7 +173,11 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// This channel is buffered so it doesn't block if an attempt is made to send
 		// after the timeout fires.
 		returnPath := make(chan sunlight.LogEntry, 1)
-		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}
+		select {
+		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
+		case <-time.After(5 * time.Second):
+			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for a place in the pool")
+		}
 
 		// If we recieve something here, that means that the entry has been both sequenced
 		// and uploaded with a newly signed STH, so we can issue a SCT.
-- 
2.43.0


From 0034add8de72a500028420c22b8a5961ce38b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 11/13] fix: refuse precertificates submitted without the
 issuer of the chain

---
 internal/ctsubmit/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index ed1bde2..8c9d3f3 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -140,9 +140,15 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// Preissuer means that the intermediate that issued the precert is only valid
 		// for issuing precertificates.
 		var preIssuer *x509.Certificate
+		if len(chain) < 2 {
+			return nil, http.StatusBadRequest, fmt.Errorf("chain does not contain the precertificate's issuer")
+		}
 		issuer := chain[1]
 		if ct.IsPreIssuer(chain[1]) {
 			preIssuer = chain[1]
+			if len(chain) < 3 {
+				return nil, http.StatusBadRequest, fmt.Errorf("chain does not contain the issuer of the precertificate signing certificate")
+			}
 			issuer = chain[2]
 		}
 
-- 
2.43.0


From 44f419152cb906ec2e61932688d61d61ac3f2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 12/13] fix: stop the sequencer before releasing the lock on an
 interrupt

---
 internal/ctsubmit/config.go | 14 --------------
 internal/ctsubmit/logic.go  |  8 +++++++-
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b2267cb..4663468 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -10,7 +10,6 @@ import (
 	"fmt"
 	"log"
 	"os"
-	"os/signal"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -137,19 +136,6 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			log.Fatal("Consul lock lost, exiting now!")
 		}(eStopChan)
 
-		// If the program recieves a Ctrl-C, release the lock
-		// This will cause the lock loss handler to fire
-		// Not really the best place to handle this, but
-		// we need to release the lock somewhere and other cleanup is
-		// not implemented yet
-		interruptChan := make(chan os.Signal, 1)
-		signal.Notify(interruptChan, os.Interrupt)
-		go func(interruptChan chan os.Signal, lock *consul.Lock) {
-			<-interruptChan
-			log.Println("Interrupted, releasing lock")
-			lock.Unlock()
-		}(interruptChan, lock)
-
 		// Once the lock is acquired, fetch the configuration from Consul
 		kv := client.KV()
 		rawConfig, _, err := kv.Get(configpath, &consul.QueryOptions{
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 8c9d3f3..ec99750 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -11,6 +11,8 @@ import (
 	"maps"
 	"math/rand"
 	"net/http"
+	"os"
+	"os/signal"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -24,12 +26,16 @@ import (
 
 // TODO: Evaluate if the context is actually needed
 func (l *Log) Start(ctx context.Context) (http.Handler, error) {
+	// If the program recieves a Ctrl-C, or stage one fails, stop stage two. The lock
+	// must not be released before, as stage two may be in the middle of an upload.
+	ctx, stop := signal.NotifyContext(ctx, os.Interrupt)
+
 	// Start the stages
 	go func() {
 		err := l.stageOneData.stageOne(ctx)
 		fmt.Printf("Error in stageOne: %v\n", err)
 		fmt.Println("Stopping log now!")
-		l.eStop.Unlock()
+		stop()
 	}()
 	go func() {
 		err := l.stageTwoData.stageTwo(ctx)
-- 
2.43.0


From 1eb5e0983284cdafe044c0ae75c3240c4b8721a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 13/13] fix: itko-setup: do not replace the tree head of an
 existing log

---
 internal/ctsetup/main.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ctsetup/main.go b/internal/ctsetup/main.go
index b47b771..9632553 100644
--- a/internal/ctsetup/main.go
+++ b/internal/ctsetup/main.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"encoding/json"
 	"encoding/pem"
+	"errors"
 	"log"
 	"os"
 	"time"
@@ -120,5 +121,15 @@ func uploadEmptySth(ctx context.Context, signingKey string, gc ctsubmit.GlobalCo
 		s := ctsubmit.NewS3Storage(gc.S3Region, gc.S3Bucket, gc.S3EndpointUrl, gc.S3StaticCredentialUserName, gc.S3StaticCredentialPassword)
 		storage = &s
 	}
+
+	// A log that has already published a tree must not be rolled back to the empty one
+	exists, err := storage.Exists(ctx, "ct/v1/get-sth")
+	if err != nil {
+		return err
+	}
+	if exists {
+		return errors.New("the log already has a signed tree head")
+	}
+
 	return storage.Set(ctx, "ct/v1/get-sth", jsonBytes)
 }
-- 
2.43.0


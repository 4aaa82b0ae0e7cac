From 2746ec7b54cb6ea7221dd8727bce402edf211f0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 01/56] fix: look up variants and flags by own property only

---
 .../src/experimentClient.ts                   | 20 +++++++++++++++----
 .../experiment-browser/src/storage/cache.ts   |  6 +++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 4462b2c..ab802ed 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -558,7 +558,10 @@ export class ExperimentClient implements Client {
   ): SourceVariant {
     let defaultSourceVariant: SourceVariant = {};
     // Local evaluation
-    const variant = this.evaluate([flag.key])[key];
+    const variants = this.evaluate([flag.key]);
+    const variant = Object.prototype.hasOwnProperty.call(variants, key)
+      ? variants[key]
+      : undefined;
     const source = VariantSource.LocalEvaluation;
     const isLocalEvaluationDefault = variant?.metadata?.default as boolean;
     if (!isNullOrUndefined(variant) && !isLocalEvaluationDefault) {
@@ -583,7 +586,7 @@ export class ExperimentClient implements Client {
       };
     }
     // Initial variants
-    const initialVariant = this.config.initialVariants[key];
+    const initialVariant = this.initialVariant(key);
     if (!isNullOrUndefined(initialVariant)) {
       return {
         variant: convertVariant(initialVariant),
@@ -645,7 +648,7 @@ export class ExperimentClient implements Client {
       };
     }
     // Initial variants
-    const initialVariant = this.config.initialVariants[key];
+    const initialVariant = this.initialVariant(key);
     if (!isNullOrUndefined(initialVariant)) {
       return {
         variant: convertVariant(initialVariant),
@@ -682,7 +685,7 @@ export class ExperimentClient implements Client {
   ): SourceVariant {
     let defaultSourceVariant: SourceVariant = {};
     // Initial variants
-    const initialVariantsVariant = this.config.initialVariants[key];
+    const initialVariantsVariant = this.initialVariant(key);
     if (!isNullOrUndefined(initialVariantsVariant)) {
       return {
         variant: convertVariant(initialVariantsVariant),
@@ -908,6 +911,15 @@ export class ExperimentClient implements Client {
     return this.addContext(user);
   }
 
+  private initialVariant(key: string): Variant | undefined {
+    // Own properties only: keys like "constructor" must not resolve to members
+    // of Object.prototype.
+    const initialVariants = this.config.initialVariants;
+    return Object.prototype.hasOwnProperty.call(initialVariants, key)
+      ? initialVariants[key]
+      : undefined;
+  }
+
   private sourceVariants(): Variants | undefined {
     if (this.config.source == Source.LocalStorage) {
       return this.variants.getAll();
diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index 0759d0e..1ab6f46 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -92,7 +92,11 @@ export class LoadStoreCache<V> {
   }
 
   public get(key: string): V | undefined {
-    return this.cache[key];
+    // Own properties only: keys like "constructor" must not resolve to members
+    // of Object.prototype.
+    return Object.prototype.hasOwnProperty.call(this.cache, key)
+      ? this.cache[key]
+      : undefined;
   }
 
   public getAll(): Record<string, V> {
-- 
2.43.0


From 22e6ac4edf7e3c4c6608cbaf1e5bc89e8c6a6c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 02/56] fix: copy the user properties of the user being set,
 not of the previous one

---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index ab802ed..f0a138c 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -454,7 +454,7 @@ export class ExperimentClient implements Client {
       this.user = null;
       return;
     }
-    if (this.user?.user_properties) {
+    if (user.user_properties) {
       const userPropertiesCopy = { ...user.user_properties };
       this.user = { ...user, user_properties: userPropertiesCopy };
     } else {
-- 
2.43.0


From 65867bf72f13aa98fab9c9c79c835d7d07a9ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 03/56] fix: do not start polling when stopped while starting

---
 packages/experiment-browser/src/experimentClient.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index f0a138c..aed3bb7 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -271,7 +271,8 @@ export class ExperimentClient implements Client {
       // Otherwise, silently handle the error (existing behavior)
     }
 
-    if (this.config.pollOnStart) {
+    // stop() may have been called while waiting for flags and variants.
+    if (this.config.pollOnStart && this.isRunning) {
       this.poller.start();
     }
   }
-- 
2.43.0


From a7be776c4e254a4ca74e471a9048cbd7eff69638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 04/56] fix: cancel outstanding retries before starting new
 ones

---
 packages/experiment-browser/src/experimentClient.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index aed3bb7..f24547c 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -871,6 +871,9 @@ export class ExperimentClient implements Client {
     options: FetchOptions,
   ): Promise<void> {
     this.logger.debug('[Experiment] Retry fetch');
+    // Concurrent fetches may fail independently: cancel the retries of the
+    // earlier one instead of leaving them running and out of reach.
+    this.stopRetries();
     this.retriesBackoff = new Backoff(
       fetchBackoffAttempts,
       fetchBackoffMinMillis,
-- 
2.43.0


From 74f33b09695d8c259bc97c03daea32b4fb171446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 05/56] fix: keep retrying events refused after the tracking
 queue was drained

---
 packages/experiment-browser/src/integration/manager.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index e39d5b2..656c8b7 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -243,13 +243,18 @@ export class PersistentTrackingQueue {
 
   setTracker(tracker: (event: ExperimentEvent) => boolean): void {
     this.tracker = tracker;
+    this.startPoller();
+    this.loadFlushStore();
+  }
+
+  private startPoller(): void {
+    if (this.poller) return;
     const setInterval = getSetInterval();
     if (setInterval) {
       this.poller = setInterval(() => {
         this.loadFlushStore();
       }, 1000);
     }
-    this.loadFlushStore();
   }
 
   private flush(): void {
@@ -272,6 +277,9 @@ export class PersistentTrackingQueue {
         clearInterval(this.poller);
       }
       this.poller = undefined;
+    } else if (this.inMemoryQueue.length > 0) {
+      // Retry the events which have not been accepted.
+      this.startPoller();
     }
   }
 
-- 
2.43.0


From e1d4b316f83aa413480352e7a86782540199a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 06/56] fix: tolerate corrupt or full storage when tracking
 exposures

---
 .../src/integration/manager.ts                | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 656c8b7..bd72368 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -201,7 +201,15 @@ export class SessionDedupeCache {
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
       const storedCache = sessionStorage.getItem(this.storageKey);
-      this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
+      this.inMemoryCache = {};
+      try {
+        const cache = storedCache ? JSON.parse(storedCache) : {};
+        if (cache && typeof cache === 'object') {
+          this.inMemoryCache = cache;
+        }
+      } catch (e) {
+        // Drop the corrupt cache.
+      }
     }
   }
 
@@ -287,7 +295,15 @@ export class PersistentTrackingQueue {
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
       const storedQueue = localStorage.getItem(this.storageKey);
-      this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
+      this.inMemoryQueue = [];
+      try {
+        const queue = storedQueue ? JSON.parse(storedQueue) : [];
+        if (Array.isArray(queue)) {
+          this.inMemoryQueue = queue;
+        }
+      } catch (e) {
+        // Drop the corrupt queue.
+      }
     }
   }
 
@@ -300,7 +316,14 @@ export class PersistentTrackingQueue {
           this.inMemoryQueue.length - this.maxQueueSize,
         );
       }
-      localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
+      try {
+        localStorage.setItem(
+          this.storageKey,
+          JSON.stringify(this.inMemoryQueue),
+        );
+      } catch (e) {
+        // Gracefully handle QuotaExceededError or other storage errors.
+      }
     }
   }
 
-- 
2.43.0


From 05c46bd4f22c524da163ebc7bba79c8dc3b8add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 07/56] fix: do not modify the initial variants passed by the
 caller

---
 packages/experiment-browser/src/experimentClient.ts | 4 +++-
 packages/experiment-browser/src/storage/cache.ts    | 5 ++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index f24547c..6dfc858 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -156,11 +156,13 @@ export class ExperimentClient implements Client {
     }, this.config.flagConfigPollingIntervalMillis);
     // Transform initialVariants
     if (this.config.initialVariants) {
+      const initialVariants: Variants = {};
       for (const flagKey in this.config.initialVariants) {
-        this.config.initialVariants[flagKey] = transformVariantFromStorage(
+        initialVariants[flagKey] = transformVariantFromStorage(
           this.config.initialVariants[flagKey],
         );
       }
+      this.config.initialVariants = initialVariants;
     }
     if (this.config.userProvider) {
       this.userProvider = this.config.userProvider;
diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index 1ab6f46..34d826f 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -162,7 +162,7 @@ export const transformVariantFromStorage = (storageValue: unknown): Variant => {
       key: storageValue,
       value: storageValue,
     };
-  } else if (typeof storageValue === 'object') {
+  } else if (storageValue !== null && typeof storageValue === 'object') {
     // From v1 or v2 object format
     const key = storageValue['key'];
     const value = storageValue['value'];
@@ -172,8 +172,7 @@ export const transformVariantFromStorage = (storageValue: unknown): Variant => {
     if (metadata && metadata.experimentKey) {
       experimentKey = metadata.experimentKey;
     } else if (experimentKey) {
-      metadata = metadata || {};
-      metadata['experimentKey'] = experimentKey;
+      metadata = { ...metadata, experimentKey };
     }
     const variant: Variant = {};
     if (key) {
-- 
2.43.0


From 92a0f3423f61bf3f93d1853fcf2f20c5858c488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 08/56] fix: do not add the exposure URL to the metadata of the
 stored variant

---
 packages/experiment-browser/src/experimentClient.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 6dfc858..60f7eaa 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -973,7 +973,8 @@ export class ExperimentClient implements Client {
       }
     }
 
-    if (metadata) exposure.metadata = metadata;
+    // Copy, as the URL is added below and the variant must not change.
+    if (metadata) exposure.metadata = { ...metadata };
     if (this.isWebExperiment) {
       exposure.time = Date.now();
     }
-- 
2.43.0


From c6190110414f16098c58773d95fd5f370974bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 09/56] fix: ignore analytics cookies which cannot be decoded

---
 packages/experiment-browser/src/util/state.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index c9a314f..74c0b5e 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -24,7 +24,11 @@ export const parseAmplitudeCookie = (
   for (const cookie of cookies) {
     const [cookieKey, cookieValue] = cookie.split('=', 2);
     if (cookieKey === key) {
-      value = decodeURIComponent(cookieValue);
+      try {
+        value = decodeURIComponent(cookieValue);
+      } catch (e) {
+        // Malformed cookie value
+      }
     }
   }
   if (!value) {
-- 
2.43.0


From e784450785d17cee275943f753f49542c3457fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 10/56] fix: fall back on the provider for user fields which
 are null or undefined

---
 packages/experiment-browser/src/experimentClient.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 60f7eaa..dbcebc7 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -903,9 +903,10 @@ export class ExperimentClient implements Client {
     };
     return {
       library: `experiment-js-client/${PACKAGE_VERSION}`,
-      ...providedUser,
-      ...integrationUser,
-      ...user,
+      // Null and undefined fields fall back to the next source.
+      ...filterNullUndefined(providedUser),
+      ...filterNullUndefined(integrationUser),
+      ...filterNullUndefined(user),
       user_properties: mergedUserProperties,
     };
   }
-- 
2.43.0


From 19ff155835daec4f2b4e3588bf7a9582237a7806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 11/56] fix: ignore stored caches which are not objects

---
 packages/experiment-browser/src/storage/cache.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index 34d826f..b5a7af9 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -130,6 +130,9 @@ export class LoadStoreCache<V> {
       // Do nothing
       return;
     }
+    if (typeof jsonValues !== 'object') {
+      return;
+    }
     const values: Record<string, V> = {};
     for (const key of Object.keys(jsonValues)) {
       try {
-- 
2.43.0


From 78eef2551665099d8ed27e789575df0b275c3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 12/56] fix: keep events in memory when storage cannot be read

---
 packages/experiment-browser/src/integration/manager.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index bd72368..df22229 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -200,9 +200,9 @@ export class SessionDedupeCache {
   private loadCache(): void {
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
-      const storedCache = sessionStorage.getItem(this.storageKey);
-      this.inMemoryCache = {};
       try {
+        const storedCache = sessionStorage.getItem(this.storageKey);
+        this.inMemoryCache = {};
         const cache = storedCache ? JSON.parse(storedCache) : {};
         if (cache && typeof cache === 'object') {
           this.inMemoryCache = cache;
@@ -294,9 +294,9 @@ export class PersistentTrackingQueue {
   private loadQueue(): void {
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
-      const storedQueue = localStorage.getItem(this.storageKey);
-      this.inMemoryQueue = [];
       try {
+        const storedQueue = localStorage.getItem(this.storageKey);
+        this.inMemoryQueue = [];
         const queue = storedQueue ? JSON.parse(storedQueue) : [];
         if (Array.isArray(queue)) {
           this.inMemoryQueue = queue;
-- 
2.43.0


From 310f2f707360280cb91957722db6533ffd6f1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 13/56] fix: treat denied access to web storage as no storage

---
 packages/experiment-core/src/util/global.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-core/src/util/global.ts b/packages/experiment-core/src/util/global.ts
index 1efca4f..cd52f77 100644
--- a/packages/experiment-core/src/util/global.ts
+++ b/packages/experiment-core/src/util/global.ts
@@ -37,11 +37,21 @@ export const isLocalStorageAvailable = (): boolean => {
 };
 
 export const getLocalStorage = (): Storage | undefined => {
-  return getGlobalScope()?.localStorage;
+  try {
+    return getGlobalScope()?.localStorage;
+  } catch (e) {
+    // Access to storage may be denied
+    return undefined;
+  }
 };
 
 export const getSessionStorage = (): Storage | undefined => {
-  return getGlobalScope()?.sessionStorage;
+  try {
+    return getGlobalScope()?.sessionStorage;
+  } catch (e) {
+    // Access to storage may be denied
+    return undefined;
+  }
 };
 
 export const getDocument = (): Document | undefined => {
-- 
2.43.0


From 773dcd65a28d89ea5ab337a54288521e9da8bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 14/56] fix: tolerate corrupt persisted segment identity

---
 packages/plugin-segment/src/plugin.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 8a9c410..0220615 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -62,7 +62,11 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
       const get = (key: string) => {
         const localStorage = getLocalStorage();
         if (!localStorage) return undefined;
-        return JSON.parse(localStorage.getItem(key)) || undefined;
+        try {
+          return JSON.parse(localStorage.getItem(key)) || undefined;
+        } catch (e) {
+          return undefined;
+        }
       };
       return {
         user_id: get('ajs_user_id'),
-- 
2.43.0


From c63f245e9f0661a20f21df36c2078e34012f8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 15/56] fix: do not edit user properties in place in the
 identity editor

---
 packages/analytics-connector/src/identityStore.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 1689594..7eed9da 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -83,7 +83,9 @@ export class IdentityStoreImpl implements IdentityStore {
       updateUserProperties: function (
         actions: Record<string, Record<string, unknown>>,
       ): IdentityEditor {
-        let actingProperties = actingIdentity.userProperties || {};
+        // Copy, as the current object may belong to the caller or, after a
+        // commit, to the store.
+        let actingProperties = { ...actingIdentity.userProperties };
         for (const [action, properties] of Object.entries(actions)) {
           switch (action) {
             case ID_OP_SET:
-- 
2.43.0


From 287d9a29b649d4e24150b91d083e2705cb234305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 16/56] fix: keep exposures and sent flags in memory when they
 cannot be stored

---
 packages/experiment-browser/src/integration/manager.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index df22229..2a9d93f 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -135,6 +135,7 @@ export class SessionDedupeCache {
   private readonly storageKey: string;
   private readonly isSessionStorageAvailable = checkIsSessionStorageAvailable();
   private inMemoryCache: Record<string, string | null> = {};
+  private storeFailed = false;
   private identity: Identity = {};
 
   constructor(instanceName: string) {
@@ -198,6 +199,8 @@ export class SessionDedupeCache {
   }
 
   private loadCache(): void {
+    // Storage is stale if the last write failed
+    if (this.storeFailed) return;
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
       try {
@@ -221,7 +224,9 @@ export class SessionDedupeCache {
           this.storageKey,
           JSON.stringify(this.inMemoryCache),
         );
+        this.storeFailed = false;
       } catch (e) {
+        this.storeFailed = true;
         // Gracefully handle QuotaExceededError or other storage errors.
         // The in-memory cache will still work for deduplication within this session.
       }
@@ -234,6 +239,7 @@ export class PersistentTrackingQueue {
   private readonly maxQueueSize: number;
   private readonly isLocalStorageAvailable = isLocalStorageAvailable();
   private inMemoryQueue: ExperimentEvent[] = [];
+  private storeFailed = false;
   private poller: any | undefined;
   private tracker: ((event: ExperimentEvent) => boolean) | undefined;
 
@@ -292,6 +298,8 @@ export class PersistentTrackingQueue {
   }
 
   private loadQueue(): void {
+    // Storage is stale if the last write failed
+    if (this.storeFailed) return;
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
       try {
@@ -321,7 +329,9 @@ export class PersistentTrackingQueue {
           this.storageKey,
           JSON.stringify(this.inMemoryQueue),
         );
+        this.storeFailed = false;
       } catch (e) {
+        this.storeFailed = true;
         // Gracefully handle QuotaExceededError or other storage errors.
       }
     }
-- 
2.43.0


From ed587373a2d49d5f5aa588ce921134ad61328357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 17/56] fix: decode non-ASCII user ids of legacy analytics
 cookies

---
 packages/experiment-browser/src/util/state.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index 74c0b5e..75f9cb8 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -45,7 +45,7 @@ export const parseAmplitudeCookie = (
     const values = value.split('.');
     let userId = undefined;
     if (values.length >= 2 && values[1]) {
-      userId = atob(values[1]);
+      userId = decodeUtf8(atob(values[1]));
     }
     return {
       deviceId: values[0],
@@ -56,6 +56,20 @@ export const parseAmplitudeCookie = (
   }
 };
 
+// The user ID is encoded as UTF-8 before base64.
+const decodeUtf8 = (binary: string): string => {
+  try {
+    return decodeURIComponent(
+      binary.replace(
+        /[^]/g,
+        (c) => '%' + ('0' + c.charCodeAt(0).toString(16)).slice(-2),
+      ),
+    );
+  } catch (e) {
+    return binary;
+  }
+};
+
 export const parseAmplitudeLocalStorage = (
   apiKey: string,
 ): AmplitudeState | undefined => {
-- 
2.43.0


From 53be4223fb60ca052b5baf3d1c2da8a1fafc1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 18/56] fix: parse pre-release versions in linear time

---
 packages/experiment-core/src/evaluation/semantic-version.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/semantic-version.ts b/packages/experiment-core/src/evaluation/semantic-version.ts
index 126225c..c5d6647 100644
--- a/packages/experiment-core/src/evaluation/semantic-version.ts
+++ b/packages/experiment-core/src/evaluation/semantic-version.ts
@@ -6,7 +6,7 @@ const PATCH_REGEX = '(\\d+)';
 
 // prerelease is optional. If provided, it should be a hyphen followed by a
 // series of dot separated identifiers where an identifer can contain anything in [-0-9a-zA-Z]
-const PRERELEASE_REGEX = '(-(([-\\w]+\\.?)*))?';
+const PRERELEASE_REGEX = '(-([-\\w]+(\\.[-\\w]+)*\\.?)?)?';
 
 // version pattern should be major.minor(.patchAndPreRelease) where .patchAndPreRelease is optional
 const VERSION_PATTERN = `^${MAJOR_MINOR_REGEX}(\\.${PATCH_REGEX}${PRERELEASE_REGEX})?$`;
-- 
2.43.0


From d569b2ded88aa20cd9d488c0bc6f07d508b333a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 19/56] fix: tolerate malformed entries in the stored
 behavioral event history

---
 .../experiment-tag/src/behavioral-targeting/event-storage.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 157c2b1..3efdf67 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -346,6 +346,11 @@ export class EventStorageManager {
       Array.isArray(parsed.events) &&
       typeof parsed.nextId === 'number'
     ) {
+      // Drop entries that are not records: neither the uuid backfill below nor
+      // any later read could handle them.
+      parsed.events = parsed.events.filter(
+        (event) => typeof event === 'object' && event !== null,
+      );
       // Backfill a uuid for any record persisted before uuid existed, so
       // each keeps a distinct dedup identity (see eventDedupKey). Without
       // this, uuid-less records share an undefined key and all but one
-- 
2.43.0


From ea3b283a7bc23f6cb267514bbc86b31dd7a7dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 20/56] fix: do not write buffered cookies when consent is
 denied during the grant flush

---
 .../experiment-tag/src/consent/consent-cookie-storage.ts  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/experiment-tag/src/consent/consent-cookie-storage.ts b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
index 2c45419..0e9e5ad 100644
--- a/packages/experiment-tag/src/consent/consent-cookie-storage.ts
+++ b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
@@ -64,6 +64,10 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
       return;
     }
     await this.flush;
+    // Consent may have been withdrawn while the flush was being awaited.
+    if (isConsentWithheld()) {
+      return;
+    }
     return this.delegate.set(key, value);
   }
 
@@ -97,6 +101,10 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
           }
           try {
             const existing = await this.delegate.get(key);
+            // A denial during the read has already erased the stored data.
+            if (consentGate.manager.getStatus() !== 'granted') {
+              return;
+            }
             const merged =
               typeof value === 'string'
                 ? (mergeIdentityCookieJson(
-- 
2.43.0


From 60150e047b9b837629f75dd1864b1b284158a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 21/56] fix: do not leak time_on_page timers when a hidden tab
 becomes visible

A navigation while the tab is hidden starts the timers of the new page.
The visibilitychange handler then overwrote their handles without
clearing them, so they could no longer be cancelled by the next
navigation and fired early on a later page.
---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 73d8375..34f9ae3 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -1133,6 +1133,9 @@ export class SubscriptionManager {
 
   private setUpTimeouts = (durations: Set<number>) => {
     durations.forEach((durationMs) => {
+      // A navigation while the tab was hidden leaves a timer running; drop it
+      // rather than losing track of it, or it fires on a later page.
+      clearTimeout(this.timeOnPageTimeouts[durationMs]);
       this.timeOnPageTimeouts[durationMs] = this.globalScope.setTimeout(() => {
         this.messageBus.publish('time_on_page', { durationMs });
         delete this.timeOnPageTimeouts[durationMs];
-- 
2.43.0


From 0054d35f7631f4e251d5752c9ae454ac228d8ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 22/56] fix: element_visible triggers only for elements in
 view, and stays triggered

With the default visibilityRatio of 0 the observer's initial report of an
element out of view (ratio 0) activated the page. And an element leaving
the view cleared its state silently, so the page was deactivated by the
next event of an unrelated element.
---
 .../src/subscriptions/subscriptions.ts           | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 34f9ae3..a6723b5 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -716,14 +716,18 @@ export class SubscriptionManager {
           const observer = new IntersectionObserver(
             (entries) => {
               entries.forEach((entry) => {
-                const isVisible = entry.intersectionRatio >= visibilityRatio;
-
-                // Update visibility state
-                this.elementVisibilityState.set(observerKey, isVisible);
-
-                // Publish event when element becomes visible
+                // The observer also reports elements out of view (ratio 0), which
+                // a visibilityRatio of 0 would otherwise accept.
+                const isVisible =
+                  entry.isIntersecting &&
+                  entry.intersectionRatio >= visibilityRatio;
+
+                // Publish event when element becomes visible. Like the other
+                // triggers, the state holds until the next navigation: another
+                // element's event must not deactivate this page.
                 // Observer continues running; state check prevents duplicate firing
                 if (isVisible) {
+                  this.elementVisibilityState.set(observerKey, true);
                   this.messageBus.publish('element_visible');
                 }
               });
-- 
2.43.0


From 79684f873b0758f4db70a714087a33af73436f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 23/56] fix: fire every user_interaction trigger an element
 matches

The delegated handlers stopped at the first selector matching the event
target, so pages whose selector matched the same element (or an ancestor)
were never activated.
---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index a6723b5..39710f0 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -970,7 +970,6 @@ export class SubscriptionManager {
                 fireTrigger();
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1040,7 +1039,6 @@ export class SubscriptionManager {
                 }
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1072,7 +1070,6 @@ export class SubscriptionManager {
                 config.timeoutStorage.delete(matchedAncestor);
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
-- 
2.43.0


From d353158dbd67f2e2272587a1833d9e1ed9e59be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 24/56] fix: notify page change subscribers once per change

A navigation publishes element_appeared from within url_change handling,
and messages may arrive while variants are applied: each of them compared
against the pages last notified before any of them had notified, so
subscribers were called again with an unchanged set.
---
 .../experiment-tag/src/subscriptions/subscriptions.ts     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 39710f0..312ae97 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -466,8 +466,12 @@ export class SubscriptionManager {
             }
           }
 
-          // Notify subscribers if pages actually changed
-          if (pagesChanged) {
+          // Notify subscribers if pages actually changed. Another message may
+          // have notified of the same pages while variants were applied.
+          if (
+            pagesChanged &&
+            !arePageObjectsEqual(activePages, this.lastNotifiedActivePages)
+          ) {
             this.lastNotifiedActivePages = clonePageObjects(activePages);
             for (const subscriber of this.pageChangeSubscribers) {
               subscriber({ activePages });
-- 
2.43.0


From 11c496de81a22d8ad5e6ecfadf9e9893da47bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 25/56] fix: copy the variant before its exposure, where the
 client owns it

The exposure of a variant passed in by the web SDK still receives the URL.
---
 .../src/experimentClient.ts                   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index dbcebc7..8ddfecb 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -364,7 +364,7 @@ export class ExperimentClient implements Client {
     }
     const sourceVariant = this.variantAndSource(key, fallback);
     if (this.config.automaticExposureTracking) {
-      this.exposureInternal(key, sourceVariant);
+      this.exposureInternal(key, copySourceVariant(sourceVariant));
     }
     this.logger.debug(
       `[Experiment] variant for ${key} is ${
@@ -388,7 +388,7 @@ export class ExperimentClient implements Client {
    */
   public exposure(key: string): void {
     const sourceVariant = this.variantAndSource(key);
-    this.exposureInternal(key, sourceVariant);
+    this.exposureInternal(key, copySourceVariant(sourceVariant));
   }
 
   /**
@@ -974,8 +974,7 @@ export class ExperimentClient implements Client {
       }
     }
 
-    // Copy, as the URL is added below and the variant must not change.
-    if (metadata) exposure.metadata = { ...metadata };
+    if (metadata) exposure.metadata = metadata;
     if (this.isWebExperiment) {
       exposure.time = Date.now();
     }
@@ -1047,3 +1046,16 @@ type SourceVariant = {
   source?: VariantSource | undefined;
   hasDefaultVariant?: boolean | undefined;
 };
+
+// The exposure URL is added to the metadata of the variant, which must not
+// change the variant returned by, or stored in, the client.
+const copySourceVariant = (source: SourceVariant): SourceVariant =>
+  source.variant?.metadata
+    ? {
+        ...source,
+        variant: {
+          ...source.variant,
+          metadata: { ...source.variant.metadata },
+        },
+      }
+    : source;
-- 
2.43.0


From afd90c996f2b0d0e804806fbd1d42b116d11b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 26/56] fix: do not apply variants on triggers before the user
 is resolved

Triggers firing during start() evaluated flags with an unknown user, which
reported impressions of the off variant.
---
 packages/experiment-tag/src/experiment.ts                  | 5 +++++
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 1 +
 2 files changed, 6 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6ea4edf..2693f04 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -304,6 +304,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public isRedirecting = false;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  // True while start() resolves the user: triggers which fire meanwhile only
+  // update the active pages, as an evaluation would not know the user yet.
+  public isResolvingUser = false;
   private readonly messageBus: MessageBus;
   private pageObjects: PageObjects;
   private activePages: PageObjects = {};
@@ -468,6 +471,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.globalScope,
     );
     this.setupPreviewMode(urlParams);
+    this.isResolvingUser = true;
     this.subscriptionManager.initSubscriptions();
     // Redirect stick-detector: settle any marker left by a prior redirect against
     // this fresh load, then watch for the user interaction that ends its window.
@@ -704,6 +708,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     // apply local variants
+    this.isResolvingUser = false;
     await this.applyVariants({ flagKeys: this.localFlagKeys });
     await this.previewVariants({
       keyToVariant: this.previewFlags,
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 312ae97..f0f3d85 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -415,6 +415,7 @@ export class SubscriptionManager {
           const shouldApplyVariants =
             !isInternalUpdate &&
             !this.options.isVisualEditorMode &&
+            !this.webExperimentClient.isResolvingUser &&
             (pagesChanged || behaviorsChanged || isUrlChange);
 
           if (shouldApplyVariants) {
-- 
2.43.0


From a690988e7499a6803f97a08119d5f188aeb4ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 27/56] fix: revert the injection itself when its page becomes
 inactive

The injections are keyed by their ID, not by an index.
---
 packages/experiment-tag/src/experiment.ts | 32 ++++++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 2693f04..2c63bc0 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1703,19 +1703,17 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private handleInject(action, flagKey: string, variant: Variant) {
     const variantKey = variant.key || '';
 
-    if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
-      this.appliedMutations[flagKey]?.[variantKey]?.[
-        INJECT_ACTION
-      ]?.[0]?.revert();
-      return;
-    }
     // Validate and transform ID
-    const rawId = action.data.id;
+    const rawId = action?.data?.id;
     if (!rawId || typeof rawId !== 'string' || rawId.length === 0) {
       return;
     }
     // Replace the `-` characters in the UUID to support function name
     const id = rawId.replace(/-/g, '');
+    if (!this.isActionActiveOnPage(flagKey, action.data.scope)) {
+      this.revertInjection(flagKey, variantKey, id);
+      return;
+    }
     // Check for repeat invocations
     if (this.appliedInjections.has(id)) {
       return;
@@ -1785,6 +1783,26 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.exposureWithDedupe(flagKey, variant);
   }
 
+  private revertInjection(flagKey: string, variantKey: string, id: string) {
+    const variantMap = this.appliedMutations[flagKey];
+    const injections = variantMap?.[variantKey]?.[INJECT_ACTION];
+    if (!injections?.[id]) {
+      return;
+    }
+    injections[id].revert();
+    delete injections[id];
+    // Delete empty objects safely
+    if (Object.keys(injections).length === 0) {
+      delete variantMap[variantKey][INJECT_ACTION];
+    }
+    if (Object.keys(variantMap[variantKey]).length === 0) {
+      delete variantMap[variantKey];
+    }
+    if (Object.keys(variantMap).length === 0) {
+      delete this.appliedMutations[flagKey];
+    }
+  }
+
   private exposureWithDedupe(
     key: string,
     variant: Variant,
-- 
2.43.0


From a21c0b8d22222e5c53702047289358c0528d235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 28/56] fix: a failing injection cleanup does not keep other
 effects on the page

---
 packages/experiment-tag/src/experiment.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 2c63bc0..8f3dadd 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1774,7 +1774,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.appliedMutations[flagKey][variantKey][INJECT_ACTION][id] = {
       revert: () => {
         state.cancelled = true;
-        utils.remove?.();
+        try {
+          utils.remove?.();
+        } catch (e) {
+          // Cleaning up one injection must not keep others in effect.
+          console.error(`Experiment inject cleanup failed for ${flagKey}:`, e);
+        }
         sheetHandle?.revert();
         script?.remove();
         this.appliedInjections.delete(id);
-- 
2.43.0


From ac9404706232ff03bb062f68994042d3bc156a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 29/56] fix: apply variants when pages change back while
 variants are being applied

---
 .../experiment-tag/src/subscriptions/subscriptions.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index f0f3d85..5f0fcd9 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -65,6 +65,9 @@ export class SubscriptionManager {
   private pageChangeSubscribers: Set<(event: PageChangeEvent) => void> =
     new Set();
   private lastNotifiedActivePages: PageObjects = {};
+  // Unlike the above, updated before variants are applied asynchronously, so
+  // that pages changing back meanwhile are recognized as a change.
+  private lastHandledActivePages: PageObjects = {};
   private lastNotifiedActiveBehavioralFlags: Map<string, Set<string>> =
     new Map();
   private intersectionObservers: Map<string, IntersectionObserver> = new Map();
@@ -391,10 +394,10 @@ export class SubscriptionManager {
 
           // Get current page state and check if it changed
           const activePages = this.webExperimentClient.getActivePages();
-          const pagesChanged = !arePageObjectsEqual(
-            activePages,
-            this.lastNotifiedActivePages,
-          );
+          const pagesChanged =
+            !arePageObjectsEqual(activePages, this.lastNotifiedActivePages) ||
+            !arePageObjectsEqual(activePages, this.lastHandledActivePages);
+          this.lastHandledActivePages = clonePageObjects(activePages);
 
           // Get current behavioral state and check if it changed
           const activeBehavioralFlags =
-- 
2.43.0


From 0dcd53e809734601b4f3c0da1e87fe2225fc93a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 30/56] fix: recognize the redirect destination when its
 parameters are in another order

Two parameter redirects on one page redirected to each other forever.
---
 packages/experiment-tag/src/experiment.ts |  6 +++++-
 packages/experiment-tag/src/util/url.ts   | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 8f3dadd..58c1620 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -90,6 +90,7 @@ import {
   getUrlParams,
   removeQueryParams,
   urlWithoutHash,
+  urlWithSortedParams,
   urlWithoutParamsAndAnchor,
   urlWithoutQuery,
   concatenateQueryParamsOf,
@@ -1450,7 +1451,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private isAtDestination(targetUrl: string): boolean {
-    const currentUrl = this.globalScope.location.href;
+    // Parameters are compared in any order, as the ones of the current page are
+    // appended to those of the redirect.
+    const currentUrl = urlWithSortedParams(this.globalScope.location.href);
+    targetUrl = urlWithSortedParams(targetUrl);
     if (currentUrl === targetUrl) {
       return true;
     }
diff --git a/packages/experiment-tag/src/util/url.ts b/packages/experiment-tag/src/util/url.ts
index 666d220..8a2d869 100644
--- a/packages/experiment-tag/src/util/url.ts
+++ b/packages/experiment-tag/src/util/url.ts
@@ -57,6 +57,16 @@ export const urlWithoutHash = (url: string): string => {
   }
 };
 
+export const urlWithSortedParams = (url: string): string => {
+  try {
+    const urlObj = new URL(url);
+    urlObj.searchParams.sort();
+    return urlObj.toString();
+  } catch {
+    return url;
+  }
+};
+
 export const removeQueryParams = (
   url: string,
   paramsToRemove: string[],
-- 
2.43.0


From 734e16039dffdc700402fbce91b2a3a6229e76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 31/56] fix: encode redirect impressions with any characters in
 the URL

---
 packages/experiment-tag/src/experiment.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 58c1620..176756f 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1415,7 +1415,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       };
       targetUrlObj.searchParams.set(
         REDIRECT_IMPRESSION_PARAM,
-        btoa(JSON.stringify(urlPayload)),
+        // Escaped, as btoa does not encode characters beyond Latin1
+        btoa(
+          JSON.stringify(urlPayload).replace(
+            /[\u0080-\uffff]/g,
+            (c) => `\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}`,
+          ),
+        ),
       );
       targetUrl = targetUrlObj.toString();
     }
-- 
2.43.0


From 56b56a042043824ce85339678ff0299376b931da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 32/56] fix: report each redirect once

The copy of a redirect impression which stayed in the sessionStorage of the
source host was reported again when the user returned, and the impressions
which did not match the current page were reported by every one of the timers
started for them, while the ones stored later were removed unreported.
---
 packages/experiment-tag/src/experiment.ts | 180 +++++++++++++++-------
 1 file changed, 121 insertions(+), 59 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 176756f..1b76c72 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -157,6 +157,15 @@ if (moduleScope) {
   moduleScope.Experiment = Experiment;
 }
 
+const isHostUnderDomain = (url: string, domain?: string): boolean => {
+  try {
+    const root = domain?.replace(/^\./, '');
+    return !!root && `.${new URL(url).hostname}`.endsWith(`.${root}`);
+  } catch {
+    return false;
+  }
+};
+
 /** Classify a dependency by its flag-key convention. */
 export const classifyDependency = (depKey: string): FlagDependencyType => {
   if (depKey.startsWith('holdout-')) {
@@ -303,6 +312,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   // a redirect is in-flight — location.replace() doesn't suspend painting, so
   // tearing the overlay down before the navigation commits flashes the source page.
   public isRedirecting = false;
+  // Impressions of redirects whose destination has not been reached
+  private readonly pendingRedirectImpressions = new Map<
+    string,
+    StoredRedirectImpression
+  >();
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
   // True while start() resolves the user: triggers which fire meanwhile only
@@ -1878,13 +1892,29 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     return scope.some((pageId) => flagPages?.[pageId] ?? false);
   }
 
+  private redirectStorageKey(): string {
+    return `EXP_${this.apiKey.slice(0, 10)}_REDIRECT`;
+  }
+
+  private async getRedirectCookie() {
+    const domain = await getTopLevelDomain(this.globalScope.location.hostname);
+    const storage = createCookieStorage<
+      Record<string, StoredRedirectImpression>
+    >({
+      ...(domain && { domain }),
+      sameSite: 'Lax',
+      expirationDays: 1 / 1440, // 1 minute
+    });
+    return { domain, storage };
+  }
+
   private async storeRedirectImpressions(
     flagKey: string,
     variant: Variant,
     redirectUrl: string,
     isCrossSubdomain: boolean,
   ) {
-    const storageKey = `EXP_${this.apiKey.slice(0, 10)}_REDIRECT`;
+    const storageKey = this.redirectStorageKey();
     const impression: StoredRedirectImpression = {
       redirectUrl,
       variantKey: variant.key || '',
@@ -1892,6 +1922,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       ...(variant.metadata !== undefined ? { metadata: variant.metadata } : {}),
     };
 
+    // The impression of this redirect supersedes the one of an earlier redirect.
+    this.pendingRedirectImpressions.delete(flagKey);
+
     // Always write to sessionStorage
     const stored =
       getStorageItem<Record<string, StoredRedirectImpression>>(
@@ -1906,22 +1939,22 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.config.redirectConfig?.encodeRedirectInCookie &&
       isCrossSubdomain
     ) {
-      const domain = await getTopLevelDomain(
-        this.globalScope.location.hostname,
-      );
-      const storage = createCookieStorage<
-        Record<string, StoredRedirectImpression>
-      >({
-        ...(domain && { domain }),
-        sameSite: 'Lax',
-        expirationDays: 1 / 1440, // 1 minute
-      });
-
+      const { domain, storage } = await this.getRedirectCookie();
+      const isShared = isHostUnderDomain(redirectUrl, domain);
+      // The target does not read a cookie of another domain
+      if (domain && !isShared) {
+        return;
+      }
       try {
         const storedRedirects = await storage.get(storageKey);
         const redirects = storedRedirects || {};
         redirects[flagKey] = impression;
         await storage.set(storageKey, redirects);
+        // The copy which stays behind on this host would be reported a second
+        // time when the user returns.
+        if (isShared && (await storage.get(storageKey))?.[flagKey]) {
+          this.removeSessionRedirectImpressions([flagKey]);
+        }
       } catch (error) {
         console.error(
           `Failed to store redirect impression in cookie for ${flagKey}:`,
@@ -1931,8 +1964,51 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
+  private removeSessionRedirectImpressions(flagKeys: string[]) {
+    const storageKey = this.redirectStorageKey();
+    const stored =
+      getStorageItem<Record<string, StoredRedirectImpression>>(
+        'sessionStorage',
+        storageKey,
+      ) || {};
+    flagKeys.forEach((flagKey) => delete stored[flagKey]);
+    if (Object.keys(stored).length === 0) {
+      removeStorageItem('sessionStorage', storageKey);
+    } else {
+      setStorageItem('sessionStorage', storageKey, stored);
+    }
+  }
+
+  /** Removes the given impressions from everywhere once they are reported. */
+  private async removeRedirectImpressions(
+    flagKeys: string[],
+    cookieStorage?: AsyncCookieStore<Record<string, StoredRedirectImpression>>,
+  ) {
+    const storageKey = this.redirectStorageKey();
+    this.removeSessionRedirectImpressions(flagKeys);
+    if (cookieStorage) {
+      try {
+        const redirects = (await cookieStorage.get(storageKey)) || {};
+        if (!flagKeys.some((flagKey) => flagKey in redirects)) {
+          return;
+        }
+        flagKeys.forEach((flagKey) => delete redirects[flagKey]);
+        if (Object.keys(redirects).length === 0) {
+          await cookieStorage.remove(storageKey);
+        } else {
+          await cookieStorage.set(storageKey, redirects);
+        }
+      } catch (error) {
+        console.error(
+          `Failed to remove redirect impressions from cookie ${storageKey}:`,
+          error,
+        );
+      }
+    }
+  }
+
   private async fireStoredRedirectImpressions() {
-    const storageKey = `EXP_${this.apiKey.slice(0, 10)}_REDIRECT`;
+    const storageKey = this.redirectStorageKey();
 
     // Read URL param impressions (highest priority)
     let urlImpressions: Record<string, StoredRedirectImpression> = {};
@@ -1954,28 +2030,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       }
     }
 
-    // Read sessionStorage impressions
-    const sessionImpressions =
-      getStorageItem<Record<string, StoredRedirectImpression>>(
-        'sessionStorage',
-        storageKey,
-      ) || {};
-
     // Read cookie impressions (lowest priority) when opted in
     let cookieImpressions: Record<string, StoredRedirectImpression> = {};
     let cookieStorage:
       | AsyncCookieStore<Record<string, StoredRedirectImpression>>
       | undefined;
     if (this.config.redirectConfig?.encodeRedirectInCookie) {
-      const domain = await getTopLevelDomain(
-        this.globalScope.location.hostname,
-      );
-      cookieStorage = createCookieStorage<
-        Record<string, StoredRedirectImpression>
-      >({
-        ...(domain && { domain }),
-        sameSite: 'Lax',
-      });
+      cookieStorage = (await this.getRedirectCookie()).storage;
       try {
         cookieImpressions = (await cookieStorage.get(storageKey)) || {};
       } catch (error) {
@@ -1986,8 +2047,16 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       }
     }
 
+    // Read sessionStorage impressions
+    const sessionImpressions =
+      getStorageItem<Record<string, StoredRedirectImpression>>(
+        'sessionStorage',
+        storageKey,
+      ) || {};
+
     // Merge with priority: url > session > cookie
     const merged: Record<string, StoredRedirectImpression> = {
+      ...Object.fromEntries(this.pendingRedirectImpressions),
       ...cookieImpressions,
       ...sessionImpressions,
       ...urlImpressions,
@@ -2000,47 +2069,40 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     const currentUrl = urlWithoutParamsAndAnchor(
       this.globalScope.location.href,
     );
+    const reported: string[] = [];
 
     for (const flagKey in merged) {
-      const { redirectUrl, variantKey, expKey, metadata } = merged[flagKey];
+      const impression = merged[flagKey];
+      const { redirectUrl, variantKey, expKey, metadata } = impression;
       if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
+        this.pendingRedirectImpressions.delete(flagKey);
         this.exposureWithDedupe(
           flagKey,
           { key: variantKey, expKey, metadata },
           true,
         );
-        delete merged[flagKey];
-      }
-    }
-
-    const cleanup = async () => {
-      removeStorageItem('sessionStorage', storageKey);
-      if (cookieStorage) {
-        await cookieStorage.remove(storageKey).catch((error) => {
-          console.error(
-            `Failed to remove redirect impressions from cookie ${storageKey}:`,
-            error,
+        reported.push(flagKey);
+      } else if (!this.pendingRedirectImpressions.has(flagKey)) {
+        // The destination may still be reached, unless the redirect was
+        // rewritten: report the impression wherever the user is after a delay.
+        this.pendingRedirectImpressions.set(flagKey, impression);
+        this.globalScope.setTimeout(() => {
+          if (this.pendingRedirectImpressions.get(flagKey) !== impression) {
+            return;
+          }
+          this.pendingRedirectImpressions.delete(flagKey);
+          this.exposureWithDedupe(
+            flagKey,
+            { key: variantKey, expKey, metadata },
+            true,
           );
-        });
+          void this.removeRedirectImpressions([flagKey], cookieStorage);
+        }, 500);
       }
-    };
+    }
 
-    if (Object.keys(merged).length > 0) {
-      this.globalScope.setTimeout(() => {
-        void (async () => {
-          for (const flagKey in merged) {
-            const { variantKey, expKey, metadata } = merged[flagKey];
-            this.exposureWithDedupe(
-              flagKey,
-              { key: variantKey, expKey, metadata },
-              true,
-            );
-          }
-          await cleanup();
-        })();
-      }, 500);
-    } else {
-      await cleanup();
+    if (reported.length > 0) {
+      await this.removeRedirectImpressions(reported, cookieStorage);
     }
   }
 
-- 
2.43.0


From ad0397a70dfb6a12dce0b510508760fec5d295ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 33/56] fix: preview despite malformed stored state, from the
 zone of the page's configuration

---
 packages/experiment-tag/src/experiment.ts | 2 +-
 packages/experiment-tag/src/index.ts      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 1b76c72..7a15214 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2137,7 +2137,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         'sessionStorage',
         PREVIEW_MODE_SESSION_KEY,
       );
-      if (previewState) {
+      if (previewState?.previewFlags) {
         this.previewFlags = previewState.previewFlags;
       }
     }
diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index a815cf2..c0734bf 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -163,7 +163,10 @@ const launchClient = (
     // to startClient so it stays gated on isRedirecting — a redirect experiment
     // surfaced in preview mode must keep the overlay up while navigation is
     // in-flight, just like the normal path.
-    fetchLatestConfigs(apiKey, config.serverZone)
+    fetchLatestConfigs(
+      apiKey,
+      mergeWithWindowConfig(config, globalScope).serverZone,
+    )
       .then((previewState) => {
         const initialFlags = JSON.stringify(previewState.flags);
         const pageObjects = JSON.stringify(previewState.pageViewObjects);
-- 
2.43.0


From 07dfd8327442c85941a2a4cec02c2565c25cb872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 34/56] fix: erase the redirect records when consent is denied

---
 packages/experiment-tag/src/consent/clear-data.ts | 9 ++++++++-
 packages/experiment-tag/src/experiment.ts         | 6 ++++--
 packages/experiment-tag/src/util/storage-keys.ts  | 8 ++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/consent/clear-data.ts b/packages/experiment-tag/src/consent/clear-data.ts
index 62734bf..93695dc 100644
--- a/packages/experiment-tag/src/consent/clear-data.ts
+++ b/packages/experiment-tag/src/consent/clear-data.ts
@@ -8,7 +8,11 @@ import {
   writeRawCookie,
 } from '../util/cookie';
 import { removeStorageItem } from '../util/storage';
-import { identityCookieKey } from '../util/storage-keys';
+import {
+  identityCookieKey,
+  redirectMarkerKey,
+  redirectSuppressedKey,
+} from '../util/storage-keys';
 
 import { consentGate } from './consent-gate';
 
@@ -178,6 +182,9 @@ export const clearAllPersistedData = (
   for (const key of keys.sessionStorage) {
     removeStorageItem('sessionStorage', key);
   }
+  // The stick detector's record of the redirects this tab has followed.
+  removeStorageItem('sessionStorage', redirectMarkerKey(apiKey));
+  removeStorageItem('sessionStorage', redirectSuppressedKey(apiKey));
 
   const hostname = getGlobalScope()?.location?.hostname ?? '';
   const domains = getCookieDomainLevels(hostname).map((domain) => `.${domain}`);
diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 7a15214..d740f50 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -85,6 +85,8 @@ import {
 import {
   identityCookieKey,
   PREVIEW_MODE_SESSION_KEY,
+  redirectMarkerKey,
+  redirectSuppressedKey,
 } from './util/storage-keys';
 import {
   getUrlParams,
@@ -1489,11 +1491,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private redirectMarkerStorageKey(): string {
-    return `EXP_${this.apiKey.slice(0, 10)}_REDIRECT_MARKER`;
+    return redirectMarkerKey(this.apiKey);
   }
 
   private redirectSuppressStorageKey(): string {
-    return `EXP_${this.apiKey.slice(0, 10)}_REDIRECT_SUPPRESSED`;
+    return redirectSuppressedKey(this.apiKey);
   }
 
   private getRedirectMarkers(): Record<string, RedirectMarker> {
diff --git a/packages/experiment-tag/src/util/storage-keys.ts b/packages/experiment-tag/src/util/storage-keys.ts
index e0fcc69..f073a2a 100644
--- a/packages/experiment-tag/src/util/storage-keys.ts
+++ b/packages/experiment-tag/src/util/storage-keys.ts
@@ -11,6 +11,14 @@
 export const identityCookieKey = (apiKey: string): string =>
   `EXP_${apiKey.slice(0, 10)}_identity`;
 
+/** Session record of redirects which have yet to reach their destination. */
+export const redirectMarkerKey = (apiKey: string): string =>
+  `EXP_${apiKey.slice(0, 10)}_REDIRECT_MARKER`;
+
+/** Session record of the flags whose redirect did not stick. */
+export const redirectSuppressedKey = (apiKey: string): string =>
+  `EXP_${apiKey.slice(0, 10)}_REDIRECT_SUPPRESSED`;
+
 /** Preview mode's flag overrides, carried across the URL-param cleanup. */
 export const PREVIEW_MODE_SESSION_KEY = 'amp-preview-mode';
 
-- 
2.43.0


From 4071de178add28a48226075589a86d66d1cd12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 35/56] fix: replace stored identities which are not objects

---
 packages/experiment-tag/src/experiment.ts   | 19 +++++++++----------
 packages/experiment-tag/src/util/storage.ts | 17 +++++++++++++++++
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index d740f50..c0c2e2e 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -79,6 +79,7 @@ import { DEVICE_IFRAME_ID, buildShell, isMobileModeActive } from './util/shell';
 import { installSpaLinkInterceptor } from './util/spa-link-interceptor';
 import {
   getStorageItem,
+  getStorageObject,
   setStorageItem,
   removeStorageItem,
 } from './util/storage';
@@ -585,11 +586,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     );
 
     const experimentStorageName = `EXP_${this.apiKey.slice(0, 10)}`;
-    const user =
-      getStorageItem<WebExperimentUser>(
-        'localStorage',
-        experimentStorageName,
-      ) || {};
+    const user = getStorageObject<WebExperimentUser>(
+      'localStorage',
+      experimentStorageName,
+    );
 
     // if web_exp_id does not exist:
     // 1. if device_id exists, migrate device_id to web_exp_id and remove device_id
@@ -615,11 +615,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     });
 
     const defaultUserProviderStorageKey = `${experimentStorageName}_DEFAULT_USER_PROVIDER`;
-    const defaultUserProviderData =
-      getStorageItem<{ first_seen?: string }>(
-        'localStorage',
-        defaultUserProviderStorageKey,
-      ) || {};
+    const defaultUserProviderData = getStorageObject<{ first_seen?: string }>(
+      'localStorage',
+      defaultUserProviderStorageKey,
+    );
 
     // web_exp_id is guaranteed above; seed v2 from it when no cookie/local v2 exists.
     const identity = await resolveCrossSubdomainObject(
diff --git a/packages/experiment-tag/src/util/storage.ts b/packages/experiment-tag/src/util/storage.ts
index 06e62b9..ede6a39 100644
--- a/packages/experiment-tag/src/util/storage.ts
+++ b/packages/experiment-tag/src/util/storage.ts
@@ -106,6 +106,23 @@ export const getStorageItem = <T>(
   }
 };
 
+/**
+ * Get a JSON object from storage. Anything else stored under the key is treated
+ * as absent.
+ * @param storageType - The type of storage to use ('localStorage' or 'sessionStorage')
+ * @param key - The key to retrieve
+ * @returns The parsed JSON object or an empty object if there is none
+ */
+export const getStorageObject = <T extends object>(
+  storageType: StorageType,
+  key: string,
+): T => {
+  const value = getStorageItem<T>(storageType, key);
+  return value && typeof value === 'object' && !Array.isArray(value)
+    ? value
+    : ({} as T);
+};
+
 /**
  * Set a JSON value in storage by stringifying it
  * @param storageType - The type of storage to use ('localStorage' or 'sessionStorage')
-- 
2.43.0


From 381a650ccf59227d66a255647b08efb1226a73ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 36/56] fix: ignore malformed stored redirect records and
 impressions

---
 packages/experiment-tag/src/experiment.ts | 97 ++++++++++++++---------
 1 file changed, 60 insertions(+), 37 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index c0c2e2e..81f9b6c 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -155,6 +155,31 @@ type StoredRedirectImpression = {
   metadata?: Record<string, unknown>;
 };
 
+/**
+ * The well-formed impressions of a stored record or URL parameter. These may
+ * hold any text, which must not keep the page from starting.
+ */
+const parseRedirectImpressions = (
+  value: unknown,
+): Record<string, StoredRedirectImpression> => {
+  const impressions: Record<string, StoredRedirectImpression> = {};
+  if (!value || typeof value !== 'object' || Array.isArray(value)) {
+    return impressions;
+  }
+  for (const [flagKey, impression] of Object.entries(value)) {
+    if (typeof impression?.variantKey !== 'string') {
+      continue;
+    }
+    try {
+      new URL(impression.redirectUrl);
+    } catch {
+      continue;
+    }
+    impressions[flagKey] = impression;
+  }
+  return impressions;
+};
+
 const moduleScope = getGlobalScope();
 if (moduleScope) {
   moduleScope.Experiment = Experiment;
@@ -1415,7 +1440,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       );
       if (existingEncoded) {
         try {
-          urlPayload = JSON.parse(atob(existingEncoded));
+          urlPayload = parseRedirectImpressions(
+            JSON.parse(atob(existingEncoded)),
+          );
         } catch (error) {
           console.error('Failed to decode existing AMP_REDIRECT param:', error);
         }
@@ -1498,11 +1525,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private getRedirectMarkers(): Record<string, RedirectMarker> {
-    return (
-      getStorageItem<Record<string, RedirectMarker>>(
-        'sessionStorage',
-        this.redirectMarkerStorageKey(),
-      ) || {}
+    return getStorageObject<Record<string, RedirectMarker>>(
+      'sessionStorage',
+      this.redirectMarkerStorageKey(),
     );
   }
 
@@ -1524,21 +1549,20 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
+  private getSuppressedRedirects(): string[] {
+    const suppressed = getStorageItem<string[]>(
+      'sessionStorage',
+      this.redirectSuppressStorageKey(),
+    );
+    return Array.isArray(suppressed) ? suppressed : [];
+  }
+
   private isRedirectSuppressed(flagKey: string): boolean {
-    const suppressed =
-      getStorageItem<string[]>(
-        'sessionStorage',
-        this.redirectSuppressStorageKey(),
-      ) || [];
-    return suppressed.includes(flagKey);
+    return this.getSuppressedRedirects().includes(flagKey);
   }
 
   private suppressRedirect(flagKey: string, reason: string): void {
-    const suppressed =
-      getStorageItem<string[]>(
-        'sessionStorage',
-        this.redirectSuppressStorageKey(),
-      ) || [];
+    const suppressed = this.getSuppressedRedirects();
     if (!suppressed.includes(flagKey)) {
       suppressed.push(flagKey);
       setStorageItem(
@@ -1927,11 +1951,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.pendingRedirectImpressions.delete(flagKey);
 
     // Always write to sessionStorage
-    const stored =
-      getStorageItem<Record<string, StoredRedirectImpression>>(
-        'sessionStorage',
-        storageKey,
-      ) || {};
+    const stored = this.getSessionRedirectImpressions();
     stored[flagKey] = impression;
     setStorageItem('sessionStorage', storageKey, stored);
 
@@ -1947,8 +1967,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         return;
       }
       try {
-        const storedRedirects = await storage.get(storageKey);
-        const redirects = storedRedirects || {};
+        const redirects = parseRedirectImpressions(
+          await storage.get(storageKey),
+        );
         redirects[flagKey] = impression;
         await storage.set(storageKey, redirects);
         // The copy which stays behind on this host would be reported a second
@@ -1965,13 +1986,15 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
+  private getSessionRedirectImpressions() {
+    return parseRedirectImpressions(
+      getStorageItem('sessionStorage', this.redirectStorageKey()),
+    );
+  }
+
   private removeSessionRedirectImpressions(flagKeys: string[]) {
     const storageKey = this.redirectStorageKey();
-    const stored =
-      getStorageItem<Record<string, StoredRedirectImpression>>(
-        'sessionStorage',
-        storageKey,
-      ) || {};
+    const stored = this.getSessionRedirectImpressions();
     flagKeys.forEach((flagKey) => delete stored[flagKey]);
     if (Object.keys(stored).length === 0) {
       removeStorageItem('sessionStorage', storageKey);
@@ -1989,7 +2012,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.removeSessionRedirectImpressions(flagKeys);
     if (cookieStorage) {
       try {
-        const redirects = (await cookieStorage.get(storageKey)) || {};
+        const redirects = parseRedirectImpressions(
+          await cookieStorage.get(storageKey),
+        );
         if (!flagKeys.some((flagKey) => flagKey in redirects)) {
           return;
         }
@@ -2018,7 +2043,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       const encoded = urlParams[REDIRECT_IMPRESSION_PARAM];
       if (encoded) {
         try {
-          urlImpressions = JSON.parse(atob(encoded));
+          urlImpressions = parseRedirectImpressions(JSON.parse(atob(encoded)));
         } catch {} // eslint-disable-line no-empty
         const cleanedUrl = removeQueryParams(this.globalScope.location.href, [
           REDIRECT_IMPRESSION_PARAM,
@@ -2039,7 +2064,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (this.config.redirectConfig?.encodeRedirectInCookie) {
       cookieStorage = (await this.getRedirectCookie()).storage;
       try {
-        cookieImpressions = (await cookieStorage.get(storageKey)) || {};
+        cookieImpressions = parseRedirectImpressions(
+          await cookieStorage.get(storageKey),
+        );
       } catch (error) {
         console.error(
           `Failed to retrieve redirect impressions from cookie ${storageKey}:`,
@@ -2049,11 +2076,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     // Read sessionStorage impressions
-    const sessionImpressions =
-      getStorageItem<Record<string, StoredRedirectImpression>>(
-        'sessionStorage',
-        storageKey,
-      ) || {};
+    const sessionImpressions = this.getSessionRedirectImpressions();
 
     // Merge with priority: url > session > cookie
     const merged: Record<string, StoredRedirectImpression> = {
-- 
2.43.0


From 2342e27dc77870b7806e56856e18a8c3a14c8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 37/56] fix: open the visual editor once when the URL also asks
 for a preview

---
 packages/experiment-tag/src/experiment.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 81f9b6c..42cd1fb 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2154,8 +2154,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           previewParamsToRemove,
         ),
       );
-      // if in preview mode, listen for ForceVariant messages
-      WindowMessenger.setup();
+      // if in preview mode, listen for ForceVariant messages, unless the visual
+      // editor is about to do so
+      if (!this.isVisualEditorMode) {
+        WindowMessenger.setup();
+      }
     } else {
       const previewState: PreviewState | null = getStorageItem(
         'sessionStorage',
-- 
2.43.0


From 8c88dfe206642220339afc433ff753a2395be780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 38/56] fix: drop malformed events of the stored queue

---
 packages/experiment-browser/src/integration/manager.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 2a9d93f..7afc437 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -307,7 +307,10 @@ export class PersistentTrackingQueue {
         this.inMemoryQueue = [];
         const queue = storedQueue ? JSON.parse(storedQueue) : [];
         if (Array.isArray(queue)) {
-          this.inMemoryQueue = queue;
+          // A malformed event would never be accepted and hold up the others.
+          this.inMemoryQueue = queue.filter(
+            (event) => typeof event?.eventType === 'string',
+          );
         }
       } catch (e) {
         // Drop the corrupt queue.
-- 
2.43.0


From bac5b6e66e208cbf51010aa77c8f2f78153c1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 39/56] fix: drop stored values which are not flags

---
 .../experiment-browser/src/storage/cache.ts   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index b5a7af9..bbeb3ff 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -26,7 +26,11 @@ export const getFlagStorage = (
 ): LoadStoreCache<EvaluationFlag> => {
   const truncatedDeployment = deploymentKey.substring(deploymentKey.length - 6);
   const namespace = `amp-exp-${instanceName}-${truncatedDeployment}-flags`;
-  return new LoadStoreCache<EvaluationFlag>(namespace, storage);
+  return new LoadStoreCache<EvaluationFlag>(
+    namespace,
+    storage,
+    transformFlagFromStorage,
+  );
 };
 
 export const getVariantsOptionsStorage = (
@@ -158,6 +162,24 @@ export class LoadStoreCache<V> {
   }
 }
 
+/**
+ * Drops stored values which are not flags: evaluating one would fail the
+ * evaluation of all flags.
+ */
+export const transformFlagFromStorage = (
+  storageValue: unknown,
+): EvaluationFlag | undefined => {
+  const flag = storageValue as EvaluationFlag | null | undefined;
+  if (
+    typeof flag?.key === 'string' &&
+    Array.isArray(flag.segments) &&
+    flag.variants !== null &&
+    typeof flag.variants === 'object'
+  ) {
+    return flag;
+  }
+};
+
 export const transformVariantFromStorage = (storageValue: unknown): Variant => {
   if (typeof storageValue === 'string') {
     // From v0 string format
-- 
2.43.0


From 853fc4f0992951e4e033e68925aed56a791183bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 40/56] fix: ignore malformed OpenOverlay messages

---
 packages/experiment-tag/src/util/messenger.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/util/messenger.ts b/packages/experiment-tag/src/util/messenger.ts
index e9adf31..c0115bb 100644
--- a/packages/experiment-tag/src/util/messenger.ts
+++ b/packages/experiment-tag/src/util/messenger.ts
@@ -94,14 +94,20 @@ export class WindowMessenger {
           );
           return;
         }
-        if (e.data.type === 'OpenOverlay') {
+        if (e.data?.type === 'OpenOverlay') {
           DebugRecorder.push(
             'message_received',
             `origin=${e.origin}, type=OpenOverlay`,
           );
           DebugRecorder.push('origin_validation', 'PASS');
 
-          const injectSrc = new URL(e.data.context.injectSrc);
+          let injectSrc: URL;
+          try {
+            injectSrc = new URL(e.data.context.injectSrc);
+          } catch {
+            DebugRecorder.push('injectSrc_validation', 'FAIL: not a URL');
+            return;
+          }
           if (state !== 'closed') {
             DebugRecorder.push('state_guard', `rejected: state=${state}`);
             return;
-- 
2.43.0


From 44f4e9fef9c3dcbd5d234e817f07c7b116eb09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 41/56] fix: start the client once when the script is on the
 page twice

---
 packages/experiment-tag/src/experiment.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 42cd1fb..b00fe06 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -347,6 +347,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   >();
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  private starting: Promise<void> | undefined;
   // True while start() resolves the user: triggers which fire meanwhile only
   // update the active pages, as an evaluation would not know the user yet.
   public isResolvingUser = false;
@@ -471,10 +472,20 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   /**
    * Start the web experiment client.
    */
-  public async start() {
+  public async start(): Promise<void> {
     if (this.isRunning) {
       return;
     }
+    // A second copy of the script on the page must not start the client again.
+    if (!this.starting) {
+      this.starting = this.startOnce().finally(() => {
+        this.starting = undefined;
+      });
+    }
+    return this.starting;
+  }
+
+  private async startOnce(): Promise<void> {
     patchRemoveChild();
     installSpaLinkInterceptor();
     const urlParams = getUrlParams();
-- 
2.43.0


From a3dc8b41957efa1b95211dd2a4440159b2c27d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 42/56] fix: keep equals signs in cookie values of the user
 context

---
 packages/experiment-browser/src/providers/default.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index ca4ae5e..33568bf 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -80,7 +80,11 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
     return Object.fromEntries(
-      this.globalScope?.document?.cookie?.split('; ').map((c) => c.split('=')),
+      this.globalScope?.document?.cookie?.split('; ').map((c) => {
+        // Only the first '=' separates name and value.
+        const i = c.indexOf('=');
+        return i < 0 ? [c] : [c.slice(0, i), c.slice(i + 1)];
+      }),
     );
   }
 
-- 
2.43.0


From b462487e9693a1ad16fd6c769f63ba00fd7a9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 43/56] fix: URL parameters named like object members are
 ordinary parameters

---
 .../src/providers/default.ts                  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index 33568bf..aa1bb19 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -126,23 +126,23 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
 
-    const params: Record<string, string[]> = {};
+    // A map, as a parameter may have the name of an object member.
+    const params = new Map<string, string[]>();
 
     try {
       const url = new URL(this.globalScope.location.href);
-      for (const [name, value] of url.searchParams) {
-        params[name] = [...(params[name] ?? []), ...value.split(',')];
-      }
+      url.searchParams.forEach((value, name) => {
+        params.set(name, [...(params.get(name) ?? []), ...value.split(',')]);
+      });
     } catch (error) {
       return undefined;
     }
 
-    return Object.entries(params).reduce<Record<string, string | string[]>>(
-      (acc, [name, value]) => {
-        acc[name] = value.length == 1 ? value[0] : value;
-        return acc;
-      },
-      {},
+    return Object.fromEntries(
+      Array.from(params, ([name, value]) => [
+        name,
+        value.length == 1 ? value[0] : value,
+      ]),
     );
   }
 }
-- 
2.43.0


From 7e36c7b0452737243ad7f39a2bac546b7c36a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 44/56] fix: a malformed stored record does not lose
 landing_url and first_seen

---
 .../src/providers/default.ts                  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index aa1bb19..9133c6b 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -4,6 +4,7 @@ import { UAParser } from '@amplitude/ua-parser-js';
 import { LocalStorage } from '../storage/local-storage';
 import { SessionStorage } from '../storage/session-storage';
 import { ExperimentUserProvider } from '../types/provider';
+import { Storage } from '../types/storage';
 import { ExperimentUser } from '../types/user';
 
 export class DefaultUserProvider implements ExperimentUserProvider {
@@ -88,11 +89,22 @@ export class DefaultUserProvider implements ExperimentUserProvider {
     );
   }
 
+  private getRecord(storage: Storage): Record<string, string> {
+    const text = storage.get(this.storageKey) || '{}';
+    try {
+      const record = JSON.parse(text);
+      if (record && typeof record === 'object' && !Array.isArray(record)) {
+        return record;
+      }
+    } catch (error) {
+      // Malformed: start over.
+    }
+    return {};
+  }
+
   private getLandingUrl(): string | undefined {
     try {
-      const sessionUser = JSON.parse(
-        this.sessionStorage.get(this.storageKey) || '{}',
-      );
+      const sessionUser = this.getRecord(this.sessionStorage);
       if (!sessionUser.landing_url) {
         sessionUser.landing_url = this.globalScope?.location?.href.replace(
           /\/$/,
@@ -108,9 +120,7 @@ export class DefaultUserProvider implements ExperimentUserProvider {
 
   private getFirstSeen(): string | undefined {
     try {
-      const localUser = JSON.parse(
-        this.localStorage.get(this.storageKey) || '{}',
-      );
+      const localUser = this.getRecord(this.localStorage);
       if (!localUser.first_seen) {
         localUser.first_seen = (Date.now() / 1000).toString();
         this.localStorage.put(this.storageKey, JSON.stringify(localUser));
-- 
2.43.0


From bc32f83508450c76636f7882a1ce1fd9c6288cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 45/56] fix: only insertions count towards the insertion limit
 of injected elements

---
 .../experiment-tag/src/util/inject-utils.ts   | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 500d5a7..6c9ee9b 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -102,12 +102,6 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return; // element was already inserted
           }
 
-          if (rateLimit >= 10) {
-            return;
-          }
-          rateLimit++;
-          setTimeout(() => rateLimit--, 1000);
-
           const parent = document.querySelector(options.parentSelector);
           if (!parent) {
             return;
@@ -121,9 +115,20 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return;
           }
 
+          // Only insertions count, not the changes of a page which has no place
+          // for the element yet.
+          if (rateLimit >= 10) {
+            return;
+          }
+          rateLimit++;
+          setTimeout(() => rateLimit--, 1000);
+
           pauseGlobalObserver();
-          parent.insertBefore(element, sibling);
-          resumeGlobalObserver();
+          try {
+            parent.insertBefore(element, sibling);
+          } finally {
+            resumeGlobalObserver();
+          }
           callback?.();
           resolve();
         };
-- 
2.43.0


From cd9759ad7b82bf569a96e396adf57847ddbaaf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:10 +0000
Subject: [PATCH 46/56] fix: a timed-out flags request does not persist the
 bundled flags

---
 packages/experiment-browser/src/experimentClient.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 8ddfecb..33218e4 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -824,6 +824,12 @@ export class ExperimentClient implements Client {
       });
       this.flags.clear();
       this.flags.putAll(flags);
+      // Store only what the server sent, not the initial flags merged below.
+      try {
+        this.flags.store();
+      } catch (e) {
+        // catch localStorage undefined error
+      }
     } catch (e) {
       if (e instanceof TimeoutError) {
         this.logger.debug(e);
@@ -836,11 +842,6 @@ export class ExperimentClient implements Client {
       }
     }
 
-    try {
-      this.flags.store();
-    } catch (e) {
-      // catch localStorage undefined error
-    }
     this.mergeInitialFlagsWithStorage();
   }
 
-- 
2.43.0


From 8ab2084334bb6fdbcd65d42c777f5afe18c362bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 47/56] fix: an invalid relay address does not keep the client
 from running

---
 packages/experiment-tag/src/experiment.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index b00fe06..4cafa92 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1057,11 +1057,18 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     // tracking that also covers reapplyVariantsAfterRelaySync's awaits — a
     // guard checked only here would leave the re-apply fetch/apply tail
     // unguarded.
-    const relayClient = new RelayClient(
-      this.apiKey,
-      webExpIdV2,
-      getRelayUrl(this.apiKey, this.config.serverZone, this.config.relayUrl),
-    );
+    let relayClient: RelayClient;
+    try {
+      relayClient = new RelayClient(
+        this.apiKey,
+        webExpIdV2,
+        getRelayUrl(this.apiKey, this.config.serverZone, this.config.relayUrl),
+      );
+    } catch (error) {
+      // An invalid relay address must not keep the client from running.
+      console.warn('Experiment relay unavailable:', error);
+      return;
+    }
     this.relayClient = relayClient;
 
     void this.behavioralTargetingManager
-- 
2.43.0


From 40a43b73941ffccc92d624c97714eca34b75f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 48/56] fix: a behavior which no longer matches is taken from
 the user

---
 packages/experiment-tag/src/experiment.ts     |  8 +++++--
 .../src/subscriptions/subscriptions.ts        | 22 +++----------------
 2 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 4cafa92..fecdffd 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -358,6 +358,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public readonly behavioralTargetingManager:
     | BehavioralTargetingManager
     | undefined;
+  // The matched behaviors by flag which the user was last updated with
+  public userBehaviors: Map<string, Set<string>> = new Map();
   private relayClient: RelayClient | null = null;
   private subscriptionManager: SubscriptionManager | undefined;
   private isVisualEditorMode = false;
@@ -1150,10 +1152,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       return;
     }
     const behaviorIds: string[] = [];
-    for (const behaviorSet of this.behavioralTargetingManager
+    this.userBehaviors = new Map();
+    for (const [flagKey, behaviorSet] of this.behavioralTargetingManager
       .getMatchedBehaviors()
-      .values()) {
+      .entries()) {
       behaviorIds.push(...behaviorSet);
+      this.userBehaviors.set(flagKey, new Set(behaviorSet));
     }
 
     // Get the current user from the experiment client
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 5f0fcd9..8701a2e 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -68,8 +68,6 @@ export class SubscriptionManager {
   // Unlike the above, updated before variants are applied asynchronously, so
   // that pages changing back meanwhile are recognized as a change.
   private lastHandledActivePages: PageObjects = {};
-  private lastNotifiedActiveBehavioralFlags: Map<string, Set<string>> =
-    new Map();
   private intersectionObservers: Map<string, IntersectionObserver> = new Map();
   private elementVisibilityState: Map<string, boolean> = new Map();
   private elementAppearedState: Set<string> = new Set();
@@ -403,12 +401,10 @@ export class SubscriptionManager {
           const activeBehavioralFlags =
             this.webExperimentClient.behavioralTargetingManager?.getMatchedBehaviors();
 
+          const userBehaviors = this.webExperimentClient.userBehaviors;
           const behaviorsChanged =
             isAnalyticsEvent &&
-            !areBehaviorsEqual(
-              activeBehavioralFlags,
-              this.lastNotifiedActiveBehavioralFlags,
-            );
+            !areBehaviorsEqual(activeBehavioralFlags, userBehaviors);
           if (behaviorsChanged) {
             this.webExperimentClient.updateUserWithBehaviors();
           }
@@ -436,9 +432,7 @@ export class SubscriptionManager {
                 ? Array.from(
                     new Set([
                       ...Array.from(activeBehavioralFlags?.keys() || []),
-                      ...Array.from(
-                        this.lastNotifiedActiveBehavioralFlags?.keys() || [],
-                      ),
+                      ...Array.from(userBehaviors.keys()),
                     ]),
                   )
                 : [];
@@ -487,15 +481,6 @@ export class SubscriptionManager {
           if (pagesChanged || isUrlChange) {
             this.scheduleDebugNotification();
           }
-
-          // Update last notified behaviors if they changed
-          if (behaviorsChanged && activeBehavioralFlags) {
-            this.lastNotifiedActiveBehavioralFlags = new Map(
-              Array.from(activeBehavioralFlags.entries()).map(
-                ([key, value]) => [key, new Set(value)],
-              ),
-            );
-          }
         })();
       });
     }
@@ -521,7 +506,6 @@ export class SubscriptionManager {
     this.maxScrollPercentage = 0;
     this.pageLoadTime = Date.now();
     this.analyticsEventState.clear();
-    this.lastNotifiedActiveBehavioralFlags = new Map();
 
     // Clear pending click timeouts
     for (const timeout of this.clickTimeouts.values()) {
-- 
2.43.0


From fa02e7be3a946387a099e20b3ab431f3dacaf71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 49/56] fix: an evaluation which was overtaken does not apply
 outdated variants

---
 packages/experiment-tag/src/experiment.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index fecdffd..951676c 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -347,6 +347,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   >();
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  private evaluations = 0;
   private starting: Promise<void> | undefined;
   // True while start() resolves the user: triggers which fire meanwhile only
   // update the active pages, as an evaluation would not know the user yet.
@@ -861,6 +862,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (Object.keys(variants).length === 0) {
       return;
     }
+    const evaluation = ++this.evaluations;
     const currentUrl = urlWithoutParamsAndAnchor(
       this.globalScope.location.href,
     );
@@ -878,7 +880,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       if ((flagKeys && !flagKeys.includes(key)) || this.previewFlags[key]) {
         continue;
       }
-      const variant = variants[key];
+      // A later evaluation may have been applied while this one was awaiting
+      const variant =
+        evaluation === this.evaluations
+          ? variants[key]
+          : this.experimentClient.variant(key);
       const variantKey = variant.key || '';
 
       // Check if the variant key has changed for this experiment
-- 
2.43.0


From 8f5052e0173c6090e052caf81d7396e28a82c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 50/56] fix: a relay sync compares with the behaviors matched
 before its merge

---
 .../src/behavioral-targeting/behavioral-targeting-manager.ts  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
index 3a39154..44cccdc 100644
--- a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
@@ -79,8 +79,6 @@ export class BehavioralTargetingManager {
   public async beginRelaySync(
     relayClient: RelayClient,
   ): Promise<RelaySyncResult> {
-    const behaviorsBefore = this.serializeMatchedBehaviors();
-
     await relayClient.init();
     if (!relayClient.relayAvailable) {
       await relayClient.waitForAvailable();
@@ -94,6 +92,8 @@ export class BehavioralTargetingManager {
       return { status: 'sync_failed' };
     }
 
+    // Taken only now, as events may have changed the matches meanwhile.
+    const behaviorsBefore = this.serializeMatchedBehaviors();
     this.evaluateAll();
     return behaviorsBefore !== this.serializeMatchedBehaviors()
       ? { status: 'behaviors_changed' }
-- 
2.43.0


From ca690e5ae86fe9129209102710ea0ca6ef0a8901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 51/56] fix: analytics providers may leave out the optional
 user property methods

---
 .../experiment-browser/src/util/sessionAnalyticsProvider.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
index 7de14ea..23e0919 100644
--- a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
+++ b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
@@ -36,7 +36,7 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
     if (this.setProperties[event.key] == event.variant.value) {
       return;
     }
-    this.analyticsProvider.setUserProperty(event);
+    this.analyticsProvider.setUserProperty?.(event);
   }
 
   unsetUserProperty?(event: ExperimentAnalyticsEvent): void {
@@ -46,6 +46,6 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
       this.unsetProperties[event.key] = 'unset';
       delete this.setProperties[event.key];
     }
-    this.analyticsProvider.unsetUserProperty(event);
+    this.analyticsProvider.unsetUserProperty?.(event);
   }
 }
-- 
2.43.0


From 6b6139328142918a409c6f352f14ce37ac00a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 52/56] fix: tell analytics about flags named like an object
 member

---
 .../src/util/sessionAnalyticsProvider.ts                  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
index 23e0919..8a63e44 100644
--- a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
+++ b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
@@ -14,9 +14,11 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
 
   // In memory record of flagKey and variant value to in order to only set
   // user properties and track an exposure event once per session unless the
-  // variant value changes
-  private readonly setProperties: Record<string, string> = {};
-  private readonly unsetProperties: Record<string, string> = {};
+  // variant value changes. Without a prototype, as flag keys may have the name
+  // of an object member.
+  private readonly setProperties: Record<string, string> = Object.create(null);
+  private readonly unsetProperties: Record<string, string> =
+    Object.create(null);
 
   constructor(analyticsProvider: ExperimentAnalyticsProvider) {
     this.analyticsProvider = analyticsProvider;
-- 
2.43.0


From fa877aebbce8ad3078481fbf626a5e11c09cb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 53/56] fix: show a single notice when several flags are
 previewed

---
 packages/experiment-tag/src/preview/preview.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/preview/preview.ts b/packages/experiment-tag/src/preview/preview.ts
index dfa17f9..255d18f 100644
--- a/packages/experiment-tag/src/preview/preview.ts
+++ b/packages/experiment-tag/src/preview/preview.ts
@@ -105,7 +105,12 @@ export class PreviewModeModal {
 
     this.injectStyles();
     requestAnimationFrame(() => {
-      if (this.modal && document.body) {
+      // Every previewed flag asks for the modal, only the first one shows it.
+      if (
+        this.modal &&
+        document.body &&
+        !document.getElementById('amp-preview-modal')
+      ) {
         document.body.appendChild(this.modal);
       }
     });
-- 
2.43.0


From 8a01640487e9cfe7b9a29f196ee6afd3c4dfe171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:32 +0000
Subject: [PATCH 54/56] fix: ignore the setup of an integration which was
 replaced meanwhile

---
 .../src/integration/manager.ts                 | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 7afc437..137c21c 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -67,16 +67,14 @@ export class IntegrationManager {
     }
     this.integration = integration;
     if (integration.setup) {
-      this.integration.setup(this.config, this.client).then(
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-      );
+      const onSetup = () => {
+        // The integration may have been replaced while it was being setup.
+        if (this.integration === integration) {
+          this.queue.setTracker(integration.track.bind(integration));
+        }
+        this.resolve();
+      };
+      this.integration.setup(this.config, this.client).then(onSetup, onSetup);
     } else {
       this.queue.setTracker(this.integration.track.bind(integration));
       this.resolve();
-- 
2.43.0


From c92bfabf8869d4b57b1f60455807a68ce95c5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:10 +0000
Subject: [PATCH 55/56] fix: order flags and dependencies named like members of
 Object.prototype

---
 .../experiment-core/src/evaluation/topological-sort.ts     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/topological-sort.ts b/packages/experiment-core/src/evaluation/topological-sort.ts
index 7003320..965a7f9 100644
--- a/packages/experiment-core/src/evaluation/topological-sort.ts
+++ b/packages/experiment-core/src/evaluation/topological-sort.ts
@@ -4,7 +4,12 @@ export const topologicalSort = (
   flags: Record<string, EvaluationFlag>,
   flagKeys?: string[],
 ): EvaluationFlag[] => {
-  const available: Record<string, EvaluationFlag> = { ...flags };
+  // No prototype: keys like "constructor" must not resolve to members of
+  // Object.prototype.
+  const available: Record<string, EvaluationFlag> = Object.assign(
+    Object.create(null),
+    flags,
+  );
   const result: EvaluationFlag[] = [];
   const startingKeys = flagKeys || Object.keys(available);
   for (const flagKey of startingKeys) {
-- 
2.43.0


From 7d4ef5f6a2e15147c5ce2ac448227e82291f5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:17 +0000
Subject: [PATCH 56/56] fix: select own properties only, not members of
 Object.prototype

---
 packages/experiment-core/src/evaluation/select.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/select.ts b/packages/experiment-core/src/evaluation/select.ts
index 804e6c0..ecfc9ca 100644
--- a/packages/experiment-core/src/evaluation/select.ts
+++ b/packages/experiment-core/src/evaluation/select.ts
@@ -9,7 +9,14 @@ export const select = (
     if (!selectorElement || !selectable || typeof selectable !== 'object') {
       return undefined;
     }
-    selectable = (selectable as Record<string, unknown>)[selectorElement];
+    // Own properties only: "constructor" must not select a member of
+    // Object.prototype.
+    selectable = Object.prototype.hasOwnProperty.call(
+      selectable,
+      selectorElement,
+    )
+      ? (selectable as Record<string, unknown>)[selectorElement]
+      : undefined;
   }
   if (selectable === undefined || selectable === null) {
     return undefined;
-- 
2.43.0


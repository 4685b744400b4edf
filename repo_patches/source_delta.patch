From 8c53896be1f84569cc88a68038fad0eef89f85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 001/183] fix: reset the filter counts of all waveform groups

RKPulseEngineResetFilters() cleared only RKMaximumFilterCount (8) of the
RKMaximumWaveformCount (22) group entries, so a waveform set after one with
more groups kept stale filters in groups 8 and up.
---
 source/RKPulseEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 10f820e..3942e18 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -1124,7 +1124,7 @@ int RKPulseEngineResetFilters(RKPulseEngine *engine) {
     // If engine->filterGroupCount is set to 0, gid may be undefined segmentation fault
     engine->filterGroupCount = 1;
     engine->filterCounts[0] = 1;
-    for (int k = 1; k < RKMaximumFilterCount; k++) {
+    for (int k = 1; k < RKMaximumWaveformCount; k++) {
         engine->filterCounts[k] = 0;
     }
     return RKResultSuccess;
-- 
2.43.0


From ce297d670e36c4db7d8f55de2519e1e57df9a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 002/183] fix: change engine state flags atomically

The engines' worker threads toggle the sleep flags with |= and ^= while
another thread clears RKEngineStateWantActive. With a plain integer an
update could be lost, and Stop() then waited for its thread forever.
---
 headers/RadarKit/RKTypes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index dd903f1..81eb684 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -897,7 +897,11 @@ enum {
 //                    RKEngineStateActive -
 //                    (RKEngineStateChildAllocated | RKEngineStateChildProperlyWired | RKEngineStateAllocated | RKEngineStateProperlyWired)
 //
+#if defined(__cplusplus)
 typedef uint32_t RKEngineState;
+#else
+typedef _Atomic uint32_t RKEngineState;                                        // Flags are changed by more than one thread
+#endif
 enum {
     RKEngineStateNull                            = 0,                          // Nothing
     RKEngineStateSleep0                          = 1,                          // Usually for a wait just outside of the main while loop
-- 
2.43.0


From 3a46805071b79b243720098adf020d9b7bc73348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 003/183] fix: keep the ring filter workers inside their region
 and buffers

With more cores than aligned blocks of gates, gateCount - origin wrapped
around and idle cores filtered gates beyond the requested region; the local
history buffers were smaller than the padded length they hold.
---
 source/RKPulseRingFilter.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 062ff25..ecd9e0a 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -168,7 +168,10 @@ static void *ringFilterCore(void *_in) {
     RKIQZ xx;
     RKIQZ yy;
     const int depth = RKMaximumIIRFilterTaps;
-    size_t filterSize = depth * engine->radarDescription->pulseCapacity / engine->coreCount * sizeof(RKFloat);
+    // The process length is a whole number of aligned blocks, which may be more than capacity / coreCount
+    const size_t blockSize = RKMemoryAlignSize / sizeof(RKFloat);
+    const size_t share = ((size_t)engine->radarDescription->pulseCapacity + engine->coreCount - 1) / engine->coreCount;
+    size_t filterSize = depth * ((share + blockSize - 1) / blockSize * blockSize) * sizeof(RKFloat);
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.i, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.q, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&yy.i, RKMemoryAlignSize, 2 * filterSize));
@@ -280,8 +283,8 @@ static void *ringFilterCore(void *_in) {
                 // Store x[n] at index k
                 kOffset = (k * 2 + p) * me->processLength;
                 Z = RKGetSplitComplexDataFromPulse(pulse, p);
-                memcpy(xx.i + kOffset, Z.i + me->processOrigin, me->processLength * sizeof(RKFloat));
-                memcpy(xx.q + kOffset, Z.q + me->processOrigin, me->processLength * sizeof(RKFloat));
+                memcpy(xx.i + kOffset, Z.i + me->processOrigin, me->outputLength * sizeof(RKFloat));
+                memcpy(xx.q + kOffset, Z.q + me->processOrigin, me->outputLength * sizeof(RKFloat));
 
                 #if defined(DEBUG_IIR)
 
@@ -479,7 +482,7 @@ static void *pulseRingWatcher(void *_in) {
         worker->parent = engine;
         worker->processOrigin = origin;
         worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -540,7 +543,7 @@ static void *pulseRingWatcher(void *_in) {
                     RKPulseRingFilterWorker *worker = &engine->workers[c];
                     worker->processOrigin = origin;
                     worker->processLength = length;
-                    worker->outputLength = MIN(gateCount - origin, length);
+                    worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
                     origin += length;
                     if (engine->verbose) {
                         RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
@@ -738,7 +741,7 @@ static void *pulseRingWatcherV1(void *_in) {
         worker->parent = engine;
         worker->processOrigin = origin;
         worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -847,7 +850,7 @@ static void *pulseRingWatcherV1(void *_in) {
                 RKPulseRingFilterWorker *worker = &engine->workers[c];
                 worker->processOrigin = origin;
                 worker->processLength = length;
-                worker->outputLength = MIN(gateCount - origin, length);
+                worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
                 origin += length;
                 if (engine->verbose) {
                     RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
-- 
2.43.0


From c91cfee18ddc1c7ee13f1a5b28473bb4ad2e3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 004/183] fix: apply the differential phase offset of each gate
 to that gate

The pulse-pair products left the first gate without its offset and gave
every other gate the offset of the gate before it.
---
 source/RKPulsePair.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKPulsePair.c b/source/RKPulsePair.c
index 9952ea4..bf5633e 100644
--- a/source/RKPulsePair.c
+++ b/source/RKPulsePair.c
@@ -134,15 +134,16 @@ void RKUpdateRadarProductsInScratchSpace(RKMomentScratch *space, const int gateC
     w = space->pcal;
     ri = space->C[0].i;
     rq = space->C[0].q;
-    s[0] = atan2f(*rq++, *ri++);
-    for (k = 1; k < gateCount; k++) {
+    for (k = 0; k < gateCount; k++) {
         s[k] = atan2f(*rq++, *ri++) + *w++;
         if (s[k] < -M_PI) {
             s[k] += 2.0f * M_PI;
         } else if (s[k] >= M_PI) {
             s[k] -= 2.0f * M_PI;
         }
-        *v++ = space->KDPFactor * (s[k] - s[k - 1]);
+        if (k > 0) {
+            *v++ = space->KDPFactor * (s[k] - s[k - 1]);
+        }
     }
 }
 
-- 
2.43.0


From bbe775be4c5ef50d392173cfe5a0ed7e5bd960bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 005/183] fix: clear the cross correlations before each ATSR
 ray

They were accumulated onto whatever the previous ray had left in the
scratch space (or onto uninitialized memory for the first ray).
---
 source/RKPulsePairATSR.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKPulsePairATSR.c b/source/RKPulsePairATSR.c
index bd1e0c4..1ea9088 100644
--- a/source/RKPulsePairATSR.c
+++ b/source/RKPulsePairATSR.c
@@ -284,6 +284,8 @@ int RKPulsePairATSR(RKMomentScratch *space, RKPulse **pulses, const uint16_t pul
         RKZeroOutIQZ(&space->R[p][1], gateCount);
         RKZeroOutIQZ(&space->RX[p][0], gateCount);
         RKZeroOutIQZ(&space->RX[p][1], gateCount);
+        RKZeroOutIQZ(&space->CX[p][0], gateCount);
+        RKZeroOutIQZ(&space->C[p], gateCount);
     }
     // Go through the even pulses for hc and vx
     n = 0;
-- 
2.43.0


From b2f2f782bc83d9f7bb84427538f3b96127e656fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 006/183] fix: limit the lag choice to the lags a ray has

With fewer pulses than the chosen lag, the multi-lag processor read pulse
pointers beyond the end of the ray.
---
 source/RKMultiLag.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/RKMultiLag.c b/source/RKMultiLag.c
index 78be144..abeeb4e 100644
--- a/source/RKMultiLag.c
+++ b/source/RKMultiLag.c
@@ -23,13 +23,11 @@ int RKMultiLag(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCou
     // Get the start pulse to know the capacity
     RKPulse *pulse = pulses[0];
     const uint32_t gateCount = pulse->header.downSampledGateCount;
-	const int lagCount = space->userLagChoice == 0 ? MIN(pulseCount, RKMaximumLagCount) : MIN(space->userLagChoice + 1, RKMaximumLagCount);
+	// A ray of n pulses has lags up to n - 1
+	const int lagChoice = MIN(space->userLagChoice, pulseCount - 1);
+	const int lagCount = lagChoice == 0 ? MIN(pulseCount, RKMaximumLagCount) : MIN(lagChoice + 1, RKMaximumLagCount);
 	const RKFloat tiny = 1.0e-6;
 
-	if (lagCount > pulseCount) {
-		RKLog("WARNING. Memory leak in RKMultiLag.\n");
-	}
-
     //
     //  ACF
     //
@@ -134,7 +132,7 @@ int RKMultiLag(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCou
 
     // For now, all cells use the same lag choice
     for (k = 0; k < gateCount; k++) {
-        space->mask[k] = space->userLagChoice;
+        space->mask[k] = lagChoice;
     }
 
     // Mark the calculated moments
-- 
2.43.0


From 5ba2d9c7cec847a152e180ab3ed787a147002a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 007/183] fix: give the hop and multi-lag variances their
 proper sign

E{X} E{X}' - R(0) was stored where R(0) - E{X} E{X}' is meant.
---
 source/RKMultiLag.c     | 2 +-
 source/RKPulsePairHop.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKMultiLag.c b/source/RKMultiLag.c
index abeeb4e..b9bcab3 100644
--- a/source/RKMultiLag.c
+++ b/source/RKMultiLag.c
@@ -71,7 +71,7 @@ int RKMultiLag(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCou
 
         // Mean and variance (2nd moment)
         RKSIMD_zsmul(&space->mX[p], &space->vX[p], gateCount, 1);                        // E{Xh} * E{Xh}' --> var  (step 1)
-        RKSIMD_izsub(&space->R[p][0], &space->vX[p], gateCount);                         // Rh[] - var     --> var  (step 2)
+        RKSIMD_zsub(&space->R[p][0], &space->vX[p], &space->vX[p], gateCount);          // Rh[] - var     --> var  (step 2)
     }
 
     // Cross-channel
diff --git a/source/RKPulsePairHop.c b/source/RKPulsePairHop.c
index 54acf2e..c2e0a5f 100644
--- a/source/RKPulsePairHop.c
+++ b/source/RKPulsePairHop.c
@@ -106,7 +106,7 @@ int RKPulsePairHop(RKMomentScratch *space, RKPulse **pulses, const uint16_t coun
 
         // Mean and variance (2nd moment)
         RKSIMD_zsmul(&space->mX[p], &space->vX[p], gateCount, 1);                                  // E{Xh} * E{Xh}' --> var  (step 1)
-        RKSIMD_izsub(&space->R[p][0], &space->vX[p], gateCount);                                   // Rh[] - var     --> var  (step 2)
+        RKSIMD_zsub(&space->R[p][0], &space->vX[p], &space->vX[p], gateCount);                    // Rh[] - var     --> var  (step 2)
     }
 
     // Cross-channel
-- 
2.43.0


From f53f0f419101299c357067851c8ca967b0bd4b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 008/183] fix: calibrate each gate with the filter that
 produced it

RKCalibratorSimple looped over the waveform groups instead of the filters
and started at the input origin, so a waveform with a fill pulse left the
near gates without calibration.
---
 source/RKCalibrator.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCalibrator.c b/source/RKCalibrator.c
index 0c3ccb8..5c55631 100644
--- a/source/RKCalibrator.c
+++ b/source/RKCalibrator.c
@@ -13,9 +13,9 @@ void RKCalibratorSimple(RKUserResource _Nullable ignore, RKMomentScratch *space)
     RKFloat r = 0.0f;
     RKConfig *config = space->config;
     RKFilterAnchor *filterAnchors = config->waveformDecimate->filterAnchors[0];
-    for (k = 0; k < config->waveformDecimate->count; k++) {
+    for (k = 0; k < config->waveformDecimate->filterCounts[0]; k++) {
         //RKLog("RKCalibratorSimple: k=%d: %d ... %d\n", k, filterAnchors[k].outputOrigin, MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount));
-        for (i = filterAnchors[k].inputOrigin; i < MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount); i++) {
+        for (i = filterAnchors[k].outputOrigin; i < MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount); i++) {
             r = (RKFloat)i * space->gateSizeMeters;
             for (p = 0; p < 2; p++) {
                 space->S2Z[p][i] = 20.0f * log10f(r) + config->systemZCal[p] + config->ZCal[k][p] - filterAnchors[k].sensitivityGain - space->samplingAdjustment;
-- 
2.43.0


From 8df3ce314b6c58a83533c998f4d4811af01c2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 009/183] fix: keep the last ray of a sweep within the sweep

Without boundary sharing, a last bin of one pulse before the end of the
sweep gave a ray that included the pulse after the sweep.
---
 source/RKMomentEngine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index b39ee6a..0613d51 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -736,12 +736,12 @@ static void *pulseGatherer(void *_in) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-                    if (count > 1) {
-                        count--;
-                    }
                     if (pulse->header.marker & RKMarkerSweepEnd) {
                         count++;
                     }
+                    if (count > 1) {
+                        count--;
+                    }
                 }
                 if (count > 0) {
                     // Number of samples in this ray and the correct plan index
-- 
2.43.0


From 278112c7b53e197f9634226cb117ae11d2e1407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 010/183] fix: limit a ray to the pulses its worker can hold

A ray shares its last pulse with the next, so a ray cut at
RKMaximumPulsesPerRay held one pulse more than the worker's list.
---
 source/RKMomentEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 0613d51..d1993fc 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -732,7 +732,7 @@ static void *pulseGatherer(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count + 1 == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
@@ -1036,7 +1036,7 @@ static void *pulseGathererV1(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count + 1 == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     if (pulse->header.marker & RKMarkerSweepEnd) {
-- 
2.43.0


From 3c34752aa2d4c9069484a6a8baabd644896bae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 011/183] fix: make no ray of a sweep of one pulse

Without boundary sharing, a sweep that begins and ends with one pulse
gave a ray that included the pulse after the sweep.
---
 source/RKMomentEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index d1993fc..a67567d 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -734,7 +734,7 @@ static void *pulseGatherer(void *_in) {
             }
             if (i1 != i0 || count + 1 == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
-                if (engine->excludeBoundaryPulses) {
+                if (engine->excludeBoundaryPulses && count > 0) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
                     if (pulse->header.marker & RKMarkerSweepEnd) {
                         count++;
@@ -1038,7 +1038,7 @@ static void *pulseGathererV1(void *_in) {
             }
             if (i1 != i0 || count + 1 == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
-                if (engine->excludeBoundaryPulses) {
+                if (engine->excludeBoundaryPulses && count > 0) {
                     if (pulse->header.marker & RKMarkerSweepEnd) {
                         count++;
                     }
-- 
2.43.0


From 82b816309b65cf4a94a9e667e9fe2e82bac50e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 012/183] fix: write out the cached pulses when the raw data
 recorder stops

---
 source/RKRawDataRecorder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 4c08143..cd392dd 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -278,6 +278,7 @@ static void *pulseRecorder(void *in) {
     }
 
     if (engine->fd) {
+        RKRawDataRecorderCacheFlush(engine);
         close(engine->fd);
         engine->fd = 0;
         if (engine->fileWriteCount == 0) {
-- 
2.43.0


From aec07aa08d35af5ccd8c8e24a727cea5bb6fd13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 013/183] fix: name the recorder in the write error message

---
 source/RKRawDataRecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index cd392dd..ebdcc51 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -439,7 +439,7 @@ size_t RKRawDataRecorderCacheWrite(RKRawDataRecorder *engine, const void *payloa
         writtenSize = (uint32_t)write(engine->fd, engine->cache, engine->cacheSize);
         engine->fileWriteCount++;
         if (writtenSize != engine->cacheSize) {
-            RKLog("%s Error in write().   writtenSize = %s\n", RKIntegerToCommaStyleString((long)writtenSize));
+            RKLog("%s Error in write().   writtenSize = %s\n", engine->name, RKIntegerToCommaStyleString((long)writtenSize));
         }
         engine->cacheFlushCount++;
         engine->cacheWriteIndex = 0;
-- 
2.43.0


From 8728ecaf7bcb6c1473505d97b78fd85646d775e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 014/183] fix: notice a record request that comes while a pulse
 is being recorded

---
 source/RKRawDataRecorder.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index ebdcc51..7f4adbf 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -130,8 +130,12 @@ static void *pulseRecorder(void *in) {
         // Consider we are writing to a file at this point
         engine->state |= RKEngineStateWritingFile;
 
+        // The user may change this at any time, the same value must be used throughout the rest of this pulse
+        const bool recorded = record;
+        record = engine->record;
+
         // Assess the configIndex, or if we reached the maximum pulse count for a file; or when user just decided to start/stop recording
-        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != engine->record) {
+        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != recorded) {
             j = pulse->header.configIndex;
             config = &engine->configBuffer[pulse->header.configIndex];
             waveform = config->waveform;
@@ -189,7 +193,7 @@ static void *pulseRecorder(void *in) {
             if (engine->verbose > 1) {
                 RKLog("%s New I/Q %s ...\n", engine->name, filename);
             }
-            if (engine->record && config->i > 1003) {
+            if (record && config->i > 1003) {
                 RKPreparePath(filename);
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
@@ -227,7 +231,7 @@ static void *pulseRecorder(void *in) {
         }
 
         // Pulse to write cache
-        if (engine->record && engine->fd) {
+        if (record && engine->fd) {
             if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
                 len += RKRawDataRecorderCacheWrite(engine, &pulse->header, sizeof(RKPulseHeader));
                 len += RKRawDataRecorderCacheWrite(engine, RKGetInt16CDataFromPulse(pulse, 0), pulse->header.gateCount * sizeof(RKInt16C));
@@ -273,7 +277,6 @@ static void *pulseRecorder(void *in) {
 
         // Update pulseIndex for the next watch
         k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
-        record = engine->record;
         n++;
     }
 
-- 
2.43.0


From b0b682ec2955d75cff80baee9b9f10bdbbd9e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 015/183] fix: record from the first pulse whatever its
 configuration index

---
 source/RKRawDataRecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 7f4adbf..561e82e 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -85,7 +85,7 @@ static void *pulseRecorder(void *in) {
 
     gettimeofday(&t1, NULL); t1.tv_sec -= 1;
 
-    j = 0;   // config index
+    j = -1;  // config index, none yet
     k = 0;   // pulse index
     n = 0;   // pulse sample count
     while (engine->state & RKEngineStateWantActive) {
-- 
2.43.0


From d92f970131ecdcb85ef3e2d478a8a8e1a1068ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 016/183] fix: refuse waveform files that are cut short or out
 of bounds

---
 source/RKWaveform.c | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 489f5ee..dfea6e8 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1033,6 +1033,20 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     r = fread(fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid);
     if (r == 0) {
         RKLog("Error. No file header from %p.\n", fid);
+        free(fileHeader);
+        return NULL;
+    }
+    if (fileHeader->count > RKMaximumWaveformCount || fileHeader->depth > RKMaximumGateCount) {
+        RKLog("Error. This waveform is invalid.  count = %d   depth = %s\n", fileHeader->count, RKUIntegerToCommaStyleString(fileHeader->depth));
+        free(fileHeader);
+        return NULL;
+    }
+    for (k = 0; k < fileHeader->count; k++) {
+        if (fileHeader->filterCounts[k] > RKMaximumFilterCount) {
+            RKLog("Error. This waveform is invalid.  filterCounts[%d] = %d\n", k, fileHeader->filterCounts[k]);
+            free(fileHeader);
+            return NULL;
+        }
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
     strncpy(waveform->name, fileHeader->name, RKNameLength);
@@ -1044,8 +1058,10 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     }
     for (k = 0; k < waveform->count; k++) {
         r = fread(waveform->filterAnchors[k], sizeof(RKFilterAnchor), fileHeader->filterCounts[k], fid);
-        if (r == 0) {
+        if (r != fileHeader->filterCounts[k]) {
             RKLog("Error. Unable to read filter anchors from %p\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
             return NULL;
         }
         // Output data from the first filter is allowed up to the maximum
@@ -1056,15 +1072,15 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
                       RKIntegerToCommaStyleString(waveform->depth));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
-            if (waveform->filterAnchors[k][j].origin > RKMaximumGateCount) {
-                RKLog("Error. This waveform is invalid.  origin = %s > %s (RKMaximumGateCount)\n",
-                      RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
-                      RKIntegerToCommaStyleString(RKMaximumGateCount));
+            if (waveform->filterAnchors[k][j].origin > waveform->depth - waveform->filterAnchors[k][j].length) {
+                RKLog("Error. This waveform is invalid.  origin = %s > %s\n",
+                      RKUIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
+                      RKIntegerToCommaStyleString(waveform->depth - waveform->filterAnchors[k][j].length));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].inputOrigin > RKMaximumGateCount) {
@@ -1072,7 +1088,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].inputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].outputOrigin > RKMaximumGateCount) {
@@ -1080,17 +1096,23 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].outputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
         }
         r = fread(waveform->samples[k], sizeof(RKComplex), waveform->depth, fid);
-        if (r == 0) {
+        if (r != waveform->depth) {
             RKLog("Error. Failed reading complex samples from %p.\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
+            return NULL;
         }
         r = fread(waveform->iSamples[k], sizeof(RKInt16C), waveform->depth, fid);
-        if (r == 0) {
+        if (r != waveform->depth) {
             RKLog("Error. Failed reading int16 samples from %p.\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
+            return NULL;
         }
     }
     RKWaveformCalculateGain(waveform, RKWaveformGainAll);
-- 
2.43.0


From f796c331fec4120cb9a290b0fabea1fae4529fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 017/183] fix: refuse raw data files without a valid waveform
 or down-sampling ratio

---
 source/RKFileHeader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 85eaca0..6f2ac77 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -90,6 +90,10 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         free(fileHeaderV1);
     } else {
         RKWaveform *waveform = RKWaveformReadFromReference(fid);
+        if (waveform == NULL || fileHeader->desc.pulseToRayRatio == 0) {
+            RKLog("Error. Failed reading file header.\n");
+            exit(EXIT_FAILURE);
+        }
         fileHeader->config.waveform = waveform;
         fileHeader->config.waveformDecimate = RKWaveformCopy(waveform);
         RKWaveformDecimate(fileHeader->config.waveformDecimate, fileHeader->desc.pulseToRayRatio);
-- 
2.43.0


From af00a5e5ba02f5b6274c84a27903c8a836bff4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 018/183] fix: count the samples of all waveform groups when
 checking the header size

---
 source/RKFileHeader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 6f2ac77..fdb931c 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -102,7 +102,7 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         for ( k = 0; k < waveform->count; k++) {
             r += waveform->filterCounts[k] * sizeof(RKFilterAnchor);
         }
-        r += waveform->depth * (sizeof(RKComplex) + sizeof(RKInt16C));
+        r += waveform->count * waveform->depth * (sizeof(RKComplex) + sizeof(RKInt16C));
         if (fp != r) {
             RKLog("Error. I detected a bug.  fp = %s != %s\n", RKIntegerToCommaStyleString(fp), RKIntegerToCommaStyleString(r));
         }
-- 
2.43.0


From 4a82bd21504f87c72fa5b6cfa5fd30717fba49fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 019/183] fix: read the second pulse width of version 5 raw
 data

---
 source/RKFileHeader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index fdb931c..28ab90e 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -61,7 +61,7 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         fileHeader->config.prt[0] = fileHeaderV1->config.prt[0];
         fileHeader->config.prt[1] = fileHeaderV1->config.prt[1];
         fileHeader->config.pw[0] = fileHeaderV1->config.pw[0];
-        fileHeader->config.pw[1] = fileHeaderV1->config.prt[1];
+        fileHeader->config.pw[1] = fileHeaderV1->config.pw[1];
         fileHeader->config.pulseGateCount = fileHeaderV1->config.pulseGateCount;
         fileHeader->config.pulseGateSize = fileHeaderV1->config.pulseGateSize;
         fileHeader->config.ringFilterGateCount = fileHeaderV1->config.pulseRingFilterGateCount;
-- 
2.43.0


From 0b67a8604538d71cab4f8e6f98a502bbad18af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 020/183] fix: free the samples of the waveforms of a file
 header

---
 source/RKFileHeader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 28ab90e..ae4a82d 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -18,8 +18,8 @@ RKFileHeader *RKFileHeaderAlloc(void) {
 }
 
 void RKFileHeaderFree(RKFileHeader *fileHeader) {
-    free(fileHeader->config.waveformDecimate);
-    free(fileHeader->config.waveform);
+    RKWaveformFree(fileHeader->config.waveformDecimate);
+    RKWaveformFree(fileHeader->config.waveform);
     free(fileHeader);
 }
 
-- 
2.43.0


From 3dc4ccaff04692c7e2a644bec72959cd97b2a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 021/183] fix: take the gate count of version 5 and 6 pulses
 from their own header

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e44c4c8..879065d 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1245,7 +1245,7 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
             pulse->header.n = headerV1->n;
             pulse->header.t = headerV1->t;
             pulse->header.gateCount = headerV1->gateCount;
-            pulse->header.downSampledGateCount = header->downSampledGateCount;
+            pulse->header.downSampledGateCount = headerV1->downSampledGateCount;
             pulse->header.pulseWidthSampleCount = headerV1->pulseWidthSampleCount;
             pulse->header.marker = headerV1->marker;
             pulse->header.time = headerV1->time;
-- 
2.43.0


From 3dfe889c549da4907f2c4e5688efee7bbddfe172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 022/183] fix: keep the waveform name from a file terminated

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index dfea6e8..b437463 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1049,7 +1049,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
         }
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
-    strncpy(waveform->name, fileHeader->name, RKNameLength);
+    strncpy(waveform->name, fileHeader->name, RKNameLength - 1);
     waveform->type = fileHeader->type;
     waveform->fc = fileHeader->fc;
     waveform->fs = fileHeader->fs;
-- 
2.43.0


From 521f23c0a00555cfc80144c0577275868d904d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 023/183] fix: read no more gates than a pulse can hold

---
 source/RKFoundation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 879065d..3bd209a 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1299,6 +1299,11 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
         pulse->header.capacity = capacity;
         RKLog("Warning. Pulse capacity restored.\n");
     }
+    gateCount = fileHeader->dataType == RKRawDataTypeFromTransceiver ? pulse->header.gateCount : pulse->header.downSampledGateCount;
+    if (gateCount > capacity) {
+        RKLog("Error. Pulse gate count %s > %s\n", RKUIntegerToCommaStyleString(gateCount), RKUIntegerToCommaStyleString(capacity));
+        return RKResultTooBig;
+    }
     // Pulse payload: H and V data into channels 0 and 1, respectively. Duplicate to split-complex storage
     for (j = 0; j < 2; j++) {
         if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
-- 
2.43.0


From 84d003df9fe363353fb4a730b34f5a88cdfc72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 024/183] fix: refuse waveform files without any group

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index b437463..8d0a515 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1036,7 +1036,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
         free(fileHeader);
         return NULL;
     }
-    if (fileHeader->count > RKMaximumWaveformCount || fileHeader->depth > RKMaximumGateCount) {
+    if (fileHeader->count == 0 || fileHeader->count > RKMaximumWaveformCount || fileHeader->depth > RKMaximumGateCount) {
         RKLog("Error. This waveform is invalid.  count = %d   depth = %s\n", fileHeader->count, RKUIntegerToCommaStyleString(fileHeader->depth));
         free(fileHeader);
         return NULL;
-- 
2.43.0


From deac37aa19481900f798d8d2440e7757eb96be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 025/183] fix: refuse version 5 raw data with filters out of
 bounds

---
 source/RKFileHeader.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index ae4a82d..c99607d 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -48,6 +48,11 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
             exit(EXIT_FAILURE);
         }
         r *= sizeof(RKFileHeaderV1);
+        if (fileHeaderV1->config.filterCount > RKMaximumFilterCount) {
+            RKLog("Error. Failed reading file header.  filterCount = %d\n", fileHeaderV1->config.filterCount);
+            exit(EXIT_FAILURE);
+        }
+        fileHeaderV1->config.waveform[RKNameLength - 5] = '\0';
         RKLog("fileHeaderV1->dataType = %d (%s)\n",
                 fileHeaderV1->dataType,
                 fileHeaderV1->dataType == RKRawDataTypeFromTransceiver ? "Raw" :
@@ -72,8 +77,18 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         // Initialize a waveformDecimate that matches the original config->filterAnchors
         uint32_t u32 = 0;
         for (k = 0; k < fileHeaderV1->config.filterCount; k++) {
+            if (fileHeaderV1->config.filterAnchors[k].length > RKMaximumGateCount) {
+                RKLog("Error. Failed reading file header.  length = %s\n", RKUIntegerToCommaStyleString(fileHeaderV1->config.filterAnchors[k].length));
+                exit(EXIT_FAILURE);
+            }
             u32 += fileHeaderV1->config.filterAnchors[k].length;
         }
+        for (k = 0; k < fileHeaderV1->config.filterCount; k++) {
+            if (fileHeaderV1->config.filterAnchors[k].origin > u32 - fileHeaderV1->config.filterAnchors[k].length) {
+                RKLog("Error. Failed reading file header.  origin = %s\n", RKUIntegerToCommaStyleString(fileHeaderV1->config.filterAnchors[k].origin));
+                exit(EXIT_FAILURE);
+            }
+        }
         // No raw (uncompressed) data prior to this built. Talk to Boonleng if you managed to, and needed to, process one
         RKWaveform *waveform = RKWaveformInitWithCountAndDepth(1, u32);
         strcpy(waveform->name, fileHeaderV1->config.waveform);
-- 
2.43.0


From 52e4a069940fefc8e3f91d91f504607d22eac0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 026/183] fix: go on after a bad waveform in a configuration
 change

---
 source/RKConfig.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 9ba3871..1073046 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -162,7 +162,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveform\n");
-                    return;
+                    break;
                 }
                 newConfig->waveform = waveform;
                 //strncpy(newConfig->waveformName, waveform->name, RKNameLength - 1);
@@ -173,7 +173,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveformDecimate\n");
-                    return;
+                    break;
                 }
                 newConfig->waveformDecimate = waveform;
                 sprintf(stringBuffer[0], "WaveformDecimate = '%s' @ %p", waveform->name, waveform);
-- 
2.43.0


From 15bb4537017c39f77b48e8350fe1cf8a96548cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 027/183] fix: allow a position marker before the first
 waveform

---
 source/RKConfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 1073046..ee42a4c 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -89,7 +89,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                         rkGlobalParameters.showColor ? RKDeepPinkColor : "",
                         RKMarkerScanTypeString(newConfig->startMarker),
                         rkGlobalParameters.showColor ? RKNoColor : "",
-                        RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8));
+                        newConfig->waveform == NULL ? "" : RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8));
                 break;
             case RKConfigKeyPRT:
                 newConfig->prt[0] = (RKFloat)va_arg(args, double);
-- 
2.43.0


From c3ab40d6c9509edb83c6c3bb196242067f4fa061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 028/183] fix: log no more of a scan definition than the
 message holds

---
 source/RKConfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index ee42a4c..b26245b 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -128,7 +128,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 if (string == NULL) {
                     sprintf(stringBuffer[0], "VCP = (NULL)\n");
                 } else {
-                    sprintf(stringBuffer[0], "VCP = %s\n", string);
+                    snprintf(stringBuffer[0], RKStatusStringLength, "VCP = %s\n", string) < 0 ? abort() : (void)0;
                     strncpy(newConfig->vcpDefinition, string, RKMaximumCommandLength - 8);
                 }
                 break;
-- 
2.43.0


From d70c2d61a5c886bcdea5757ec71932dc9590a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 029/183] fix: keep interpolated azimuths below a full circle

---
 source/RKDSP.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index e0b2cd9..ae01bc2 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -26,11 +26,13 @@ float RKGetMinorSectorInDegrees(const float angle1, const float angle2) {
 float RKInterpolatePositiveAngles(const float angleBefore, const float angleAfter, const float alpha) {
     float value = RKGetSignedMinorSectorInDegrees(angleAfter, angleBefore);
     value = angleBefore + alpha * value;
-    if (value > 360.0f) {
-        value -= 360.0f;
-    } else if (value < 0.0f) {
+    if (value < 0.0f) {
         value += 360.0f;
     }
+    // A small negative value rounds up to a full circle
+    if (value >= 360.0f) {
+        value -= 360.0f;
+    }
     return value;
 }
 
-- 
2.43.0


From f4a053911ac86e71fb7df5c847b48f212001caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 030/183] fix: begin a sweep when the scan type of the pulses
 changes

---
 source/RKPositionEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKPositionEngine.c b/source/RKPositionEngine.c
index 222f04f..fdfeb84 100644
--- a/source/RKPositionEngine.c
+++ b/source/RKPositionEngine.c
@@ -271,7 +271,7 @@ static void *pulseTagger(void *_in) {
         }
 
         // Mode change also indicates a start
-        if ((marker1 & RKPositionFlagScanModeMask) != (marker0 & RKPositionFlagScanModeMask)) {
+        if ((marker1 & RKMarkerScanTypeMask) != (marker0 & RKMarkerScanTypeMask)) {
             marker0 |= RKMarkerSweepBegin;
         }
 
-- 
2.43.0


From 669001fae5ed4cf1220f9d2d4968b8e319b64960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 031/183] fix: keep the largest websocket frame inside its
 buffer

---
 source/RKWebSocket.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e14c2b6..e27c321 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -64,10 +64,10 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     }
     if (r > 65535) {
         h->len = 127;
-        // Frame header can be up to 10 bytes
-        if (r > RKWebSocketFrameSize - 10) {
-            r = RKWebSocketFrameSize - 10;
-            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 10);
+        // Frame header can be up to 14 bytes, and there is a terminator at the end
+        if (r > RKWebSocketFrameSize - 15) {
+            r = RKWebSocketFrameSize - 15;
+            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 15);
         }
         *((uint64_t *)payload) = htonll((uint64_t)r);
         payload += 8;
-- 
2.43.0


From d42cb40f1fa9e65ca4eb6f3909a52e967fb47435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 032/183] fix: take the host of a websocket address without
 port from behind the scheme

---
 source/RKWebSocket.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e27c321..c5ac0f6 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -606,11 +606,11 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     }
     n = strstr(c, ":");
     if (n == NULL) {
-        W->port = 80;
-        strcpy(W->host, host);
+        W->port = W->useSSL ? 443 : 80;
+        snprintf(W->host, sizeof(W->host), "%s", c) < 0 ? abort() : (void)0;
     } else {
         W->port = atoi(n + 1);
-        len = (size_t)(n - c);
+        len = MIN((size_t)(n - c), sizeof(W->host) - 1);
         if (len) {
             strncpy(W->host, c, len);
             W->host[len] = '\0';
@@ -625,7 +625,7 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     if (path == NULL || strlen(path) == 0) {
         sprintf(W->path, "/");
     } else {
-        strcpy(W->path, path);
+        snprintf(W->path, sizeof(W->path), "%s", path) < 0 ? abort() : (void)0;
     }
     // Establish the SSL context if necessary
     if (W->useSSL) {
@@ -651,7 +651,7 @@ void RKWebSocketFree(RKWebSocket *W) {
 #pragma mark - Properties
 
 void RKWebSocketSetPath(RKWebSocket *W, const char *path) {
-    strcpy(W->path, path);
+    snprintf(W->path, sizeof(W->path), "%s", path) < 0 ? abort() : (void)0;
 }
 
 void RKWebSocketSetParent(RKWebSocket *W, const void *parent) {
-- 
2.43.0


From 7d9d1a1bf0cdd1c9f79c4502a34474645a74bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 033/183] fix: keep the queued websocket payloads when the
 queue is full

---
 source/RKWebSocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index c5ac0f6..a739988 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -720,6 +720,11 @@ void RKWebSocketWait(RKWebSocket *W) {
 int RKWebSocketSend(RKWebSocket *W, void *source, const size_t size) {
     pthread_mutex_lock(&W->lock);
     uint16_t k = W->payloadHead == RKWebSocketPayloadDepth - 1 ? 0 : W->payloadHead + 1;
+    if (k == W->payloadTail) {
+        // One more and the queue would look empty
+        pthread_mutex_unlock(&W->lock);
+        return -1;
+    }
     W->payloads[k].source = source;
     W->payloads[k].size = size;
     W->payloadHead = k;
-- 
2.43.0


From abfe8bd61f876b369f222b7faefd4891780a861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 034/183] fix: survive a websocket peer that closes while
 payloads are sent

---
 source/RKWebSocket.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index a739988..d76332e 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -695,6 +695,8 @@ void RKWebSocketStart(RKWebSocket *W) {
     pthread_mutex_lock(&W->lock);
     W->wantActive = true;
     pthread_mutex_unlock(&W->lock);
+    // Failures in send / write are to be handled in place
+    signal(SIGPIPE, SIG_IGN);
     if (pthread_create(&W->threadId, &W->threadAttributes, transporter, W)) {
         fprintf(stderr, "Unable to launch a run loop\n");
     }
-- 
2.43.0


From 0900724a5f58d9f9c9c292cb067a1ab231641756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 035/183] fix: receive websocket frames however the stream
 splits or joins them

A frame that came in several reads was assembled in the buffer that is also
used for sending, a second frame in the same read was dropped, and so was
anything that followed the handshake response. Masked and empty frames were
not handled. The handshake depended on the order of the header lines, read
past its buffers and never ended when the peer closed.
---
 headers/RadarKit/RKWebSocket.h |   2 +
 source/RKWebSocket.c           | 184 ++++++++++++++++++++-------------
 2 files changed, 116 insertions(+), 70 deletions(-)

diff --git a/headers/RadarKit/RKWebSocket.h b/headers/RadarKit/RKWebSocket.h
index fcc9c21..7576b65 100644
--- a/headers/RadarKit/RKWebSocket.h
+++ b/headers/RadarKit/RKWebSocket.h
@@ -81,6 +81,8 @@ struct rk_websocket {
     uint64_t                 tic;
 
     uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store a frame
+    uint8_t                  buffer[RKWebSocketFrameSize + 1];                 // What has been received but not processed, plus a terminator
+    uint32_t                 received;                                         // Number of bytes in the buffer
 };
 
 RKWebSocket *RKWebSocketInit(const char *, const char *);
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index d76332e..44593a5 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -13,17 +13,23 @@
 static char *RKGetHandshakeArgument(const char *buf, const char *key) {
     static char argument[80] = {0};
     char *b, *e;
-    b = strstr(buf, key);
-    if (b == NULL) {
-        argument[0] = '\0';
-        return argument;
-    }
+    // Header names are at the beginning of a line, in any case
+    b = (char *)buf;
+    do {
+        b = strstr(b, RKEOL);
+        if (b == NULL) {
+            argument[0] = '\0';
+            return argument;
+        }
+        b += strlen(RKEOL);
+    } while (strncasecmp(b, key, strlen(key)) || b[strlen(key)] != ':');
     b += strlen(key);
     while (*b == ':' || *b == ' ') {
         b++;
     }
     e = strstr(b, RKEOL);
-    size_t l = (size_t)(e - b);
+    size_t l = e == NULL ? strlen(b) : (size_t)(e - b);
+    l = MIN(l, sizeof(argument) - 1);
     memcpy(argument, b, l);
     argument[l] = '\0';
     return argument;
@@ -32,9 +38,9 @@ static char *RKGetHandshakeArgument(const char *buf, const char *key) {
 static int RKSocketRead(RKWebSocket *W, uint32_t origin, size_t size) {
     W->tic++;
     if (W->useSSL) {
-        return SSL_read(W->ssl, W->frame + origin, (int)size);
+        return SSL_read(W->ssl, W->buffer + origin, (int)size);
     }
-    return (int)read(W->sd,W->frame + origin, size);
+    return (int)read(W->sd, W->buffer + origin, size);
 }
 
 static int RKSocketWrite(RKWebSocket *W, size_t size) {
@@ -110,10 +116,10 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     } else {
         r = h->len;
     }
-    payload[r + 4 * h->mask] = '\0';
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
-        for (int i = 0; i < h->len; i++) {
+        payload += 4;
+        for (int i = 0; i < r; i++) {
             payload[i] ^= key.code[i % 4];
         }
     }
@@ -121,13 +127,27 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     return r;
 }
 
-static size_t RKWebSocketFrameGetTargetSize(void *buf) {
+// Size of the frame at the beginning of the buffer, or 0 when more bytes are needed to tell
+static size_t RKWebSocketFrameGetTargetSize(void *buf, const size_t received) {
     size_t r = sizeof(ws_frame_header);
     void *xlen = buf + sizeof(ws_frame_header);
     ws_frame_header *h = (ws_frame_header *)buf;
+    if (received < r) {
+        return 0;
+    }
+    r += 4 * h->mask;
     if (h->len == 127) {
+        if (received < sizeof(ws_frame_header) + 8) {
+            return 0;
+        }
+        if (ntohll(*(uint64_t *)xlen) > RKWebSocketFrameSize) {
+            return RKWebSocketFrameSize + 1;
+        }
         r += 8 + ntohll(*(uint64_t *)xlen);
     } else if (h->len == 126) {
+        if (received < sizeof(ws_frame_header) + 2) {
+            return 0;
+        }
         r += 2 + ntohs(*(uint16_t *)xlen);
     } else {
         r += h->len;
@@ -156,8 +176,8 @@ static int RKWebSocketPong(RKWebSocket *W, const char *message, const int len) {
     return RKWebSocketPingPong(W, false, message, len);
 }
 
-static void RKShowWebsocketFrameHeader(RKWebSocket *W) {
-    uint8_t *c = (uint8_t *)W->frame;
+static void RKShowWebsocketFrameHeader(uint8_t *frame) {
+    uint8_t *c = frame;
     ws_frame_header *h = (ws_frame_header *)c;
     if (h->mask) {
         printf("%02x %02x   %02x %02x %02x %02x    %02x %02x %02x %02x %02x %02x %02x %02x ..."
@@ -250,23 +270,40 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     }
 
     RKSocketWrite(W, strlen(buf));
-    do {
-        r = RKSocketRead(W, r, RKWebSocketFrameSize - r);
-    } while (r == 0 || strstr((char *)buf, "\r\n\r\n") == NULL);
-    if (r < 0) {
+    // The response may come in pieces, and the first frames may come along with it
+    buf = (char *)W->buffer;
+    buf[0] = '\0';
+    W->received = 0;
+    while ((c = strstr(buf, "\r\n\r\n")) == NULL && W->received < RKWebSocketFrameSize && W->wantActive) {
+        fd_set rfd;
+        FD_ZERO(&rfd);
+        FD_SET(W->sd, &rfd);
+        struct timeval timeout = {.tv_sec = 0, .tv_usec = W->timeoutDeltaMicroseconds};
+        if (select(W->sd + 1, &rfd, NULL, NULL, &timeout) == 0) {
+            continue;
+        }
+        r = RKSocketRead(W, W->received, RKWebSocketFrameSize - W->received);
+        if (r <= 0) {
+            break;
+        }
+        W->received += r;
+        buf[W->received] = '\0';
+    }
+    if (c == NULL) {
         fprintf(stderr, "Error during handshake.\n");
         fprintf(stderr, "%s", (char *)buf);
         return -1;
     }
-    buf[r] = '\0';
+    c[2] = '\0';
+    c += 4;
     if (W->verbose > 1) {
         printf("%s", buf);
     }
 
     // Verify the return digest, websocket upgrade, connection upgrade, etc.
-    strcpy(W->digest, RKGetHandshakeArgument(buf, "Sec-WebSocket-Accept"));
-    strcpy(W->upgrade, RKGetHandshakeArgument(buf, "Upgrade"));
-    strcpy(W->connection, RKGetHandshakeArgument(buf, "Connection"));
+    strncpy(W->digest, RKGetHandshakeArgument(buf, "Sec-WebSocket-Accept"), sizeof(W->digest) - 1);
+    strncpy(W->upgrade, RKGetHandshakeArgument(buf, "Upgrade"), sizeof(W->upgrade) - 1);
+    strncpy(W->connection, RKGetHandshakeArgument(buf, "Connection"), sizeof(W->connection) - 1);
 
     // This block is now hardcoded for default secret key, should replace ...
     if (strcmp(W->secret, "RadarHub123456789abcde") == 0 &&
@@ -288,6 +325,10 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
 
+    // Keep what came after the response
+    W->received -= (uint32_t)(c - buf);
+    memmove(W->buffer, c, W->received);
+
     // Discard all pending deliveries
     W->payloadTail = W->payloadHead;
 
@@ -309,7 +350,8 @@ void *transporter(void *in) {
     int i, r;
     void *anchor = NULL;
     size_t size, targetFrameSize = 0;
-    ws_frame_header *h = (ws_frame_header *)W->frame;
+    ws_frame_header *h = (ws_frame_header *)W->buffer;
+    uint8_t following;
     char words[][5] = {"love", "hope", "cool", "cute", "sexy", "nice", "calm", "wish"};
     char uword[5] = "xxxx";
     char message[256];
@@ -321,8 +363,6 @@ void *transporter(void *in) {
     struct timeval timeout;
     time_t s1, s0;
 
-    uint32_t origin = 0;
-    uint32_t total = 0;
     uint32_t *p32;
 
     W->tic = 1;
@@ -396,7 +436,6 @@ void *transporter(void *in) {
             //
             //  wait up to tv_usec if there is nothing left to send
             //
-            size = 0;
             FD_ZERO(&rfd);
             FD_ZERO(&efd);
             FD_SET(W->sd, &rfd);
@@ -414,52 +453,15 @@ void *transporter(void *in) {
                     break;
                 } else if (FD_ISSET(W->sd, &rfd)) {
                     // There is something to read
-                    r = RKSocketRead(W, origin, RKWebSocketFrameSize);
+                    r = RKSocketRead(W, W->received, RKWebSocketFrameSize - W->received);
                     if (r <= 0) {
                         if (W->verbose) {
-                            fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, origin);
+                            fprintf(stderr, "Error. RKSocketRead() = %d   received = %u\n", r, W->received);
                         }
                         W->connected = false;
                         break;
                     }
-                    if (origin == 0) {
-                        targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame);
-                        total = r;
-                    } else {
-                        total += r;
-                    }
-                    if (total < targetFrameSize) {
-                        origin += r;
-                        continue;
-                    } else {
-                        origin = 0;
-                    }
-                    size = RKWebSocketFrameDecode((void **)&anchor, W->frame);
-                    if (!h->fin) {
-                        fprintf(stderr, "I need upgrade!\n"
-                                        "I need upgrade!\n"
-                                        "I need upgrade!\n"
-                                        "I cannot handle frames with h->fin = 0.\n");
-                    }
-                    if (W->verbose > 1) {
-                        if (W->verbose > 2) {
-                            printf("%2u read  ", total); RKShowWebsocketFrameHeader(W);
-                        }
-                        if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
-                            RKBytesInHex(show, anchor, size);
-                        } else if (size > 32) {
-                            RKHeadTailBytesInHex(show, anchor, size);
-                        } else {
-                            memcpy(show, anchor, size);
-                            show[size] = '\0';
-                        }
-                        RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
-                              OPCODE_STRING(h->opcode),
-                              rkGlobalParameters.showColor ? RKOrangeColor : "",
-                              show,
-                              rkGlobalParameters.showColor ? RKNoColor : "",
-                              size);
-                    }
+                    W->received += r;
                     W->timeoutCount = 0;
                 } else {
                     // This shall not reach
@@ -490,13 +492,50 @@ void *transporter(void *in) {
                               rkGlobalParameters.showColor ? RKNoColor : "",
                               strlen(word));
                         if (W->verbose > 2) {
-                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W);
+                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W->frame);
                         }
                     }
                 }
             }
-            // Interpret the payload if something was read
-            if (size > 0) {
+            // Interpret every complete frame of what was read, the rest stays for the next one
+            while (W->connected && (targetFrameSize = RKWebSocketFrameGetTargetSize(W->buffer, W->received)) > 0) {
+                if (targetFrameSize > RKWebSocketFrameSize) {
+                    fprintf(stderr, "Error. Frame is larger than %d bytes.\n", RKWebSocketFrameSize);
+                    W->connected = false;
+                    break;
+                }
+                if (targetFrameSize > W->received) {
+                    break;
+                }
+                size = RKWebSocketFrameDecode((void **)&anchor, W->buffer);
+                // The payload is terminated in place of the first byte of the following frame
+                following = W->buffer[targetFrameSize];
+                W->buffer[targetFrameSize] = '\0';
+                if (!h->fin) {
+                    fprintf(stderr, "I need upgrade!\n"
+                                    "I need upgrade!\n"
+                                    "I need upgrade!\n"
+                                    "I cannot handle frames with h->fin = 0.\n");
+                }
+                if (W->verbose > 1) {
+                    if (W->verbose > 2) {
+                        printf("%2zu read  ", targetFrameSize); RKShowWebsocketFrameHeader(W->buffer);
+                    }
+                    if (size > 32) {
+                        RKHeadTailBytesInHex(show, anchor, size);
+                    } else if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
+                        RKBytesInHex(show, anchor, size);
+                    } else {
+                        memcpy(show, anchor, size);
+                        show[size] = '\0';
+                    }
+                    RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
+                          OPCODE_STRING(h->opcode),
+                          rkGlobalParameters.showColor ? RKOrangeColor : "",
+                          show,
+                          rkGlobalParameters.showColor ? RKNoColor : "",
+                          size);
+                }
                 if (h->opcode == RFC6455_OPCODE_PING) {
                     // Make a copy since payload --> W->buf or the behavior is unpredictable
                     memcpy(message, anchor, h->len); message[h->len] = '\0';
@@ -507,7 +546,9 @@ void *transporter(void *in) {
                         for (i = 0; i < 4; i++) {
                             uword[i] = W->frame[6 + i] ^ key.code[i % 4];
                         }
-                        if (h->len != 4) {
+                        if (h->len > 32) {
+                            RKHeadTailBytesInHex(show, message, h->len);
+                        } else if (h->len != 4) {
                             RKBytesInHex(show, message, h->len);
                         } else {
                             memcpy(show, message, h->len + 1);
@@ -518,7 +559,7 @@ void *transporter(void *in) {
                               rkGlobalParameters.showColor ? RKNoColor : "",
                               h->len);
                         if (W->verbose > 2) {
-                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W);
+                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W->frame);
                         }
                     }
                 } else if (h->opcode == RFC6455_OPCODE_PONG) {
@@ -531,6 +572,9 @@ void *transporter(void *in) {
                         W->onMessage(W, anchor, size);
                     }
                 }
+                W->buffer[targetFrameSize] = following;
+                W->received -= (uint32_t)targetFrameSize;
+                memmove(W->buffer, W->buffer + targetFrameSize, W->received);
                 W->timeoutCount = 0;
             }
         } // while (W->wantActive && W->connected) ...
-- 
2.43.0


From 0431642f3d692420ebb6b6759cc8a8e77a20b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 036/183] fix: send each payload whole when the socket takes
 only part of it

The remaining part was sent from the size of the latest piece, and the number of
attempts was counted over all payloads of the call, which cut long lists.
---
 source/RKNetwork.c | 21 +++++++++++----------
 source/RKServer.c  | 23 ++++++++++++-----------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 2f7ccab..9c5a0ba 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -32,17 +32,21 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
     while (payload != NULL) {
         payloadSize = va_arg(arg, ssize_t);
         // RKLog("RKNetworkSendPackets : payloadSize = %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKNetworkTimeoutSeconds / 10) {
-            if ((sentSize = send(sd, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        timeout_count = 0;
+        while (totalSentSize < payloadSize) {
+            if ((sentSize = send(sd, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
-            }
-            if (totalSentSize < payloadSize) {
-                usleep(10000);
-            } else if (sentSize < 0) {
+                timeout_count = 0;
+            } else if (sentSize < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
                 RKLog("RKNetworkSendPackets Unable to send()\n");
+                va_end(arg);
                 return -RKResultIncompleteSend;
+            } else if (timeout_count++ < RKNetworkTimeoutSeconds / 10) {
+                usleep(10000);
+            } else {
+                va_end(arg);
+                return -RKResultTimeout;
             }
         }
         grandTotalSentSize += totalSentSize;
@@ -52,9 +56,6 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
 
     va_end(arg);
 
-    if (timeout_count >= RKNetworkTimeoutSeconds / 10) {
-        return -RKResultTimeout;
-    }
     return grandTotalSentSize;
 }
 
diff --git a/source/RKServer.c b/source/RKServer.c
index 8969c81..e011ef3 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -755,17 +755,22 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
     while (payload != NULL) {
         payloadSize = va_arg(arg, ssize_t);
         //printf("size %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKSocketTimeCountOf10ms) {
-            if ((sentSize = send(O->sid, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        timeout_count = 0;
+        while (totalSentSize < payloadSize) {
+            if ((sentSize = send(O->sid, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
-            }
-            if (totalSentSize < payloadSize) {
+                timeout_count = 0;
+            } else if (sentSize < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+                va_end(arg);
+                pthread_mutex_unlock(&O->lock);
+                return -RKResultIncompleteSend;
+            } else if (timeout_count++ < RKSocketTimeCountOf10ms) {
                 usleep(1000);
-            } else if (sentSize < 0) {
+            } else {
+                va_end(arg);
                 pthread_mutex_unlock(&O->lock);
-                return RKResultIncompleteSend;
+                return -RKResultTimeout;
             }
         }
         grandTotalSentSize += totalSentSize;
@@ -776,10 +781,6 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
 
     pthread_mutex_unlock(&O->lock);
 
-    if (timeout_count >= RKSocketTimeCountOf10ms) {
-        return RKResultTimeout;
-    }
-
     return grandTotalSentSize;
 }
 
-- 
2.43.0


From eed78e706bd63b181c6b7ecbd776cb83cbede36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 037/183] fix: take every command line of a server client, in
 order

Lines that came together stayed in the stdio buffer until more data arrived, more
than seven waiting lines overwrote each other, and the socket was closed twice.
---
 source/RKServer.c | 56 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index e011ef3..6b90f03 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -146,6 +146,31 @@ void *RKServerRoutine(void *in) {
 }
 
 
+// Append the characters available to the line, up to its end. Whatever comes after the end of the line stays in the socket
+// Returns 1 when the line is complete, 0 when there may be more to come, -1 when the client has disconnected
+static int RKOperatorReadLine(RKOperator *O, char *line, size_t *length) {
+    const size_t capacity = RKMaximumCommandLength - 2;
+    char *end;
+    ssize_t r = recv(O->sid, line + *length, capacity - *length, MSG_PEEK | MSG_DONTWAIT);
+    if (r < 0) {
+        return errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR ? 0 : -1;
+    } else if (r == 0) {
+        // The end of the stream also ends the line
+        return *length ? 1 : -1;
+    }
+    end = memchr(line + *length, '\n', r);
+    if (end) {
+        r = end - (line + *length) + 1;
+    }
+    if ((r = recv(O->sid, line + *length, r, 0)) <= 0) {
+        return -1;
+    }
+    *length += r;
+    line[*length] = '\0';
+    return end != NULL || *length == capacity;
+}
+
+
 void *RKOperatorRoutine(void *in) {
 
     RKOperator      *O = (RKOperator *)in;
@@ -153,7 +178,9 @@ void *RKOperatorRoutine(void *in) {
 
     int             r;
 
-    FILE            *fp;
+    uint8_t         next;
+    size_t          length = 0;
+
     fd_set          rfd;
     fd_set          wfd;
     fd_set          efd;
@@ -185,13 +212,6 @@ void *RKOperatorRoutine(void *in) {
     gettimeofday(&latestReadTime, NULL);
     gettimeofday(&latestWriteTime, NULL);
 
-    // Get a file descriptor for get line
-    fp = fdopen(O->sid, "r");
-    if (fp == NULL) {
-        RKLog("%s unable to get a file descriptor fro socket descriptor.\n", M->name);
-        return (void *)RKResultSDToFDError;
-    }
-
     // Run loop for the read/write
     while (M->state == RKServerStateActive && O->state == RKOperatorStateActive) {
         //
@@ -236,6 +256,13 @@ void *RKOperatorRoutine(void *in) {
         //
         //  Command queue
         //
+        next = O->commandIndexWrite == RKServerBufferDepth - 1 ? 0 : O->commandIndexWrite + 1;
+        if (next == O->commandIndexRead) {
+            // No vacant slot until the current command is done
+            gettimeofday(&latestReadTime, NULL);
+            usleep(1000);
+            continue;
+        }
         FD_ZERO(&rfd);
         FD_ZERO(&efd);
         FD_SET(O->sid, &rfd);
@@ -252,7 +279,10 @@ void *RKOperatorRoutine(void *in) {
                 // Ready to read (command)
                 gettimeofday(&latestReadTime, NULL);
                 str = O->commands[O->commandIndexWrite];
-                if (fgets(str, RKMaximumCommandLength - 1, fp) == NULL) {
+                r = RKOperatorReadLine(O, str, &length);
+                if (r == 0) {
+                    continue;
+                } else if (r < 0) {
                     // When the socket has been disconnected by the client
                     O->cmd = NULL;
                     RKLog("%s %s Client disconnected.\n", M->name, O->name);
@@ -262,8 +292,9 @@ void *RKOperatorRoutine(void *in) {
                     break;
                 }
                 RKStripTail(str);
-                O->commandIndexWrite = O->commandIndexWrite == RKServerBufferDepth - 1 ? 0 : O->commandIndexWrite + 1;
-                memset(O->commands[O->commandIndexWrite], 0, RKMaximumCommandLength);
+                length = 0;
+                memset(O->commands[next], 0, RKMaximumCommandLength);
+                O->commandIndexWrite = next;
             }
         } else if (r < 0) {
             // Errors
@@ -296,7 +327,7 @@ void *RKOperatorRoutine(void *in) {
 
     pthread_join(O->tidExecute, NULL);
     pthread_mutex_destroy(&O->lock);
-    fclose(fp);
+    close(O->sid);
 
     O->state = RKOperatorStateHungUp;
 
@@ -398,7 +429,6 @@ void RKOperatorFree(RKOperator *O) {
     const int k = O->iid;
 
     pthread_join(O->tidRead, NULL);
-    close(O->sid);
     free(O);
 
     M->busy[k] = false;
-- 
2.43.0


From 3030f50dc3915fefd758016bab50e06f304afa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 038/183] fix: finish the operators and close the socket when a
 server stops

---
 source/RKServer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/RKServer.c b/source/RKServer.c
index 6b90f03..4ead35c 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -136,6 +136,15 @@ void *RKServerRoutine(void *in) {
         }
     } // while (M->state == RKServerStateActive) ...
 
+    // Wait for all operators to finish before the server may be freed
+    M->state = RKServerStateClosing;
+    for (k = 0; k < RKServerMaximumOperators; k++) {
+        if (M->operators[k] != NULL) {
+            RKOperatorFree(M->operators[k]);
+        }
+    }
+    close(M->sd);
+
     if (M->verbose > 1) {
         RKLog("%s Returning ...\n", M->name);
     }
-- 
2.43.0


From d0d7d1790b78eab86f184c83b3b532863c94028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 039/183] fix: keep delimiters of concurrent server messages
 apart

---
 source/RKServer.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 4ead35c..2651150 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -828,15 +828,18 @@ ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
 }
 
 ssize_t RKOperatorSendDelimitedString(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypePlainText;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    // Own copy since other threads may be sending through the same operator
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypePlainText;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, (ssize_t)delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendCommandResponse(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypeCommandResponse;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypeCommandResponse;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, (ssize_t)delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendBeacon(RKOperator *O) {
-- 
2.43.0


From eb727299125995bb4c403f2be8be6ee29d59e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 040/183] fix: terminate the lines of the server banner

---
 source/RKServer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKServer.c b/source/RKServer.c
index 2651150..a3b7e2d 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -486,6 +486,7 @@ int RKDefaultWelcomeHandler(RKOperator *O) {
     sprintf(msg, "+---%s---+\n", border);
     for (ii=0; ii<nlines; ii++) {
         memset(padded_line, ' ', max_len);
+        padded_line[max_len] = '\0';
         len = strlen(line_array[ii]);
         memcpy(padded_line + (max_len - len) / 2, line_array[ii], len);
         sprintf(msg + strlen(msg), "|   %s   |\n", padded_line);
-- 
2.43.0


From 92035a630f69daeb647fad9a532ebaeaa04036d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 041/183] fix: receive a user payload whose delimiter comes in
 pieces

---
 source/RKServer.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index a3b7e2d..8b76284 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -642,7 +642,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             k = 0;
             readCount = 0;
             while (readCount++ < O->timeoutSeconds * 100) {
-                if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
+                if ((r = read(O->sid, (void *)delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
                     if (r) {
                         k += r;
                         if (k == sizeof(RKNetDelimiter)) {
@@ -654,7 +654,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     } else {
                         usleep(10000);
                     }
-                } else if (errno != EAGAIN) {
+                } else if (r == 0 || errno != EAGAIN) {
                     RKLog("%s %s Error. RKMessageFormatFixedHeaderVariableBlock   r = %d   k = %d   errno = %d (%s)\n",
                               M->name, O->name, r, k, errno, RKErrnoString(errno));
                     break;
@@ -693,7 +693,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     } else {
                         usleep(10000);
                     }
-                } else if (errno != EAGAIN) {
+                } else if (r == 0 || errno != EAGAIN) {
                     if (M->verbose > 1) {
                         RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
                               O->name, r, k, errno, RKErrnoString(errno), readCount);
@@ -707,7 +707,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     RKLog("... errno = %d ...\n", errno);
                 }
             }
-            if (readCount >= O->timeoutSeconds * 100) {
+            if (k < delimiter->size) {
                 if (M->verbose > 1) {
                     RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
                 }
@@ -730,7 +730,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     } else {
                         usleep(10000);
                     }
-                } else if (errno != EAGAIN) {
+                } else if (r == 0 || errno != EAGAIN) {
                     if (M->verbose > 1) {
                         RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
                               O->name, r, k, errno, RKErrnoString(errno), readCount);
@@ -744,7 +744,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     RKLog("... errno = %d ...\n", errno);
                 }
             }
-            if (readCount >= O->timeoutSeconds * 100) {
+            if (k < blockLength) {
                 if (M->verbose > 1) {
                     RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
                 }
-- 
2.43.0


From 1509dae69c33c49ce51d3947e7d5db327ae645e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 042/183] fix: deliver only complete packets of a client, of
 any allowed size

---
 source/RKClient.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index af1d8d2..b98fb11 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -33,7 +33,7 @@ void *theClient(void *in) {
 
     FILE *fid = NULL;
 
-    void *buf = (void *)malloc(RKMaximumPacketSize);
+    void *buf = (void *)malloc(RKMaximumPacketSize + 1);
     if (buf == NULL) {
         RKLog("Error. Unable to allocate space for a buffer.\n");
         return (void *)RKResultErrorCreatingOperatorRoutine;
@@ -233,7 +233,7 @@ void *theClient(void *in) {
                                 } else {
                                     usleep(10000);
                                 }
-                            } else if (errno != EAGAIN) {
+                            } else if (r == 0 || errno != EAGAIN) {
                                 if (C->verbose > 1) {
                                     RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
                                           C->name, r, k, errno, RKErrnoString(errno), readCount);
@@ -252,7 +252,7 @@ void *theClient(void *in) {
                                 RKLog("... errno = %d ...\n", errno);
                             }
                         }
-                        if (readCount >= C->timeoutSeconds * 100) {
+                        if (k < C->blockLength) {
                             if (C->verbose > 1) {
                                 RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", C->name, readCount, errno);
                             }
@@ -279,7 +279,7 @@ void *theClient(void *in) {
                                 } else {
                                     usleep(10000);
                                 }
-                            } else if (errno != EAGAIN) {
+                            } else if (r == 0 || errno != EAGAIN) {
                                 if (C->verbose > 1) {
                                     RKLog("%s Error. RKMessageFormatFixedHeaderVariableBlock:1  r = %d  k = %d  errno = %d (%s)\n",
                                           C->name, r, k, errno, RKErrnoString(errno));
@@ -298,7 +298,7 @@ void *theClient(void *in) {
                                 usleep(10000);
                             }
                         }
-                        if (k != sizeof(RKNetDelimiter) || readCount > C->timeoutSeconds * 100) {
+                        if (k != sizeof(RKNetDelimiter)) {
                             if (errno != ECONNREFUSED) {
                                 RKLog("%s Error. Incomplete read().   errno = %d (%s)\n", C->name, errno, RKErrnoString(errno));
                             }
@@ -337,7 +337,7 @@ void *theClient(void *in) {
                                 } else {
                                     usleep(10000);
                                 }
-                            } else if (errno != EAGAIN) {
+                            } else if (r == 0 || errno != EAGAIN) {
                                 RKLog("%s Error. PCMessageFormatFixedHeaderVariableBlock:2  size=%d   r=%d  k=%d  errno=%d (%s)\n",
                                       C->name, C->netDelimiter.size, r, k, errno, RKErrnoString(errno));
                                 readCount = C->timeoutSeconds * 1000;
@@ -360,7 +360,7 @@ void *theClient(void *in) {
                         #endif
                         // Add a NULL character to the end of payload
                         cbuf[k] = '\0';
-                        if (readCount >= C->timeoutSeconds * 1000) {
+                        if (k < C->netDelimiter.size) {
                             break;
                         }
                         readOkay = true;
-- 
2.43.0


From 709e7180d401a7309756b7465f420c501287f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 043/183] fix: deliver every line a client receives, also those
 that come together

---
 source/RKClient.c | 49 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index b98fb11..3c1d53c 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -31,7 +31,9 @@ void *theClient(void *in) {
 
     C->state = RKClientStateCreating;
 
-    FILE *fid = NULL;
+    size_t lineLength;
+    size_t lineBufferLength = 0;
+    char *end, *lineBuffer = NULL;
 
     void *buf = (void *)malloc(RKMaximumPacketSize + 1);
     if (buf == NULL) {
@@ -149,7 +151,6 @@ void *theClient(void *in) {
 
         // Server is almost ready to receive (could still be in EINPROGRESS, then select() -> 0)
         if (C->init) {
-            fid = NULL;
             FD_ZERO(&C->wfd);
             FD_ZERO(&C->efd);
             FD_SET(C->sd, &C->wfd);
@@ -196,6 +197,7 @@ void *theClient(void *in) {
 
         // Actively receive
         timeoutCount = 0;
+        lineBufferLength = 0;
         while (C->state < RKClientStateReconnecting) {
             FD_ZERO(&C->rfd);
             FD_ZERO(&C->efd);
@@ -369,15 +371,19 @@ void *theClient(void *in) {
                     case RKNetworkMessageFormatNewLine:
                     default:
                         
-                        if (fid == NULL) {
-                            fid = fdopen(C->sd, "r");
-                            if (fid < 0) {
-                                RKLog("%s Error. Unable to open a file descriptor for socket.\n", C->name);
-                                return (void *)-1;
-                            }
+                        if (lineBuffer == NULL && (lineBuffer = (char *)malloc(RKMaximumPacketSize)) == NULL) {
+                            RKLog("%s Error. Unable to allocate space for lines.\n", C->name);
+                            break;
                         }
-                        if (fgets(buf, RKMaximumPacketSize, fid) != NULL) {
+                        r = (int)read(C->sd, lineBuffer + lineBufferLength, RKMaximumPacketSize - 1 - lineBufferLength);
+                        if (r > 0) {
+                            lineBufferLength += r;
                             readOkay = true;
+                        } else if (r == 0) {
+                            // The end of the stream also ends the line
+                            readOkay = lineBufferLength > 0;
+                        } else {
+                            readOkay = errno == EAGAIN || errno == EINTR;
                         }
                         break;
                 } // switch (C->format) ...
@@ -392,7 +398,6 @@ void *theClient(void *in) {
                     }
                     pthread_mutex_unlock(&C->lock);
                     close(C->sd);
-                    fid = NULL;
                     continue;
                 } else {
                     pthread_mutex_lock(&C->lock);
@@ -405,8 +410,27 @@ void *theClient(void *in) {
                     pthread_mutex_unlock(&C->lock);
                 }
                 timeoutCount = 0;
-                C->recv(C);
-                cbuf[0] = '\0';
+                if (C->format == RKNetworkMessageFormatConstantSize || C->format == RKNetworkMessageFormatHeaderDefinedSize) {
+                    C->recv(C);
+                    cbuf[0] = '\0';
+                } else {
+                    // All the lines that came, the last one is kept until its end arrives
+                    lineLength = 0;
+                    while (C->state < RKClientStateReconnecting && lineLength < lineBufferLength) {
+                        end = memchr(lineBuffer + lineLength, '\n', lineBufferLength - lineLength);
+                        if (end == NULL && r != 0 && (lineLength > 0 || lineBufferLength < RKMaximumPacketSize - 1)) {
+                            break;
+                        }
+                        k = end ? (int)(end - lineBuffer - lineLength) + 1 : (int)(lineBufferLength - lineLength);
+                        memcpy(cbuf, lineBuffer + lineLength, k);
+                        cbuf[k] = '\0';
+                        lineLength += k;
+                        C->recv(C);
+                        cbuf[0] = '\0';
+                    }
+                    lineBufferLength -= lineLength;
+                    memmove(lineBuffer, lineBuffer + lineLength, lineBufferLength);
+                }
 
                 // Send in a beacon signal
                 gettimeofday(&timeout, NULL);
@@ -454,6 +478,7 @@ void *theClient(void *in) {
             usleep(100000);
         };
     } // Here comes ... will jump out if C->state >= RKClientStateDisconnecting
+    free(lineBuffer);
     free(buf);
 
     C->userPayload = NULL;
-- 
2.43.0


From 2a564b8fe587e72e79780e71bf158fc7c5240fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 044/183] fix: close the socket of a client when its connection
 ends

---
 source/RKClient.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index 3c1d53c..b597c10 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -397,7 +397,6 @@ void *theClient(void *in) {
                         C->state = RKClientStateReconnecting;
                     }
                     pthread_mutex_unlock(&C->lock);
-                    close(C->sd);
                     continue;
                 } else {
                     pthread_mutex_lock(&C->lock);
@@ -469,6 +468,9 @@ void *theClient(void *in) {
             } // if (r == 0) ...
         }
 
+        // This connection is over
+        close(C->sd);
+
         // Wait a while before trying to reconnect
         k = 31;
         while (k-- > 1 && C->state < RKClientStateDisconnecting) {
-- 
2.43.0


From cc82e637dade95a8ff9b63a538a40ee0287250f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 045/183] fix: stop a client at any time after it was started

---
 source/RKClient.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index b597c10..5adfe4a 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -29,8 +29,6 @@ void *theClient(void *in) {
     struct timeval previousBeaconTime = {0, 0};
     bool readOkay;
 
-    C->state = RKClientStateCreating;
-
     size_t lineLength;
     size_t lineBufferLength = 0;
     char *end, *lineBuffer = NULL;
@@ -54,7 +52,11 @@ void *theClient(void *in) {
     // Here comes the infinite loop until being stopped
     while (C->state < RKClientStateDisconnecting) {
 
-        C->state = RKClientStateResolvingIP;
+        pthread_mutex_lock(&C->lock);
+        if (C->state < RKClientStateDisconnecting) {
+            C->state = RKClientStateResolvingIP;
+        }
+        pthread_mutex_unlock(&C->lock);
 
         // Resolve hostname to IP address
         if (C->verbose > 1) {
@@ -580,8 +582,10 @@ void RKClientSetCloseHandler(RKClient *C, int (*routine)(RKClient *)) {
 void RKClientStart(RKClient *C, const bool waitForConnection) {
     pthread_mutex_init(&C->lock, NULL);
     pthread_attr_init(&C->threadAttributes);
+    C->state = RKClientStateCreating;
     if (pthread_create(&C->threadId, &C->threadAttributes, theClient, C)) {
         RKLog("Error. Unable to launch a socket client.\n");
+        C->state = RKClientStateNull;
         return;
     }
     if (!waitForConnection) {
@@ -597,7 +601,7 @@ void RKClientStart(RKClient *C, const bool waitForConnection) {
 }
 
 void RKClientStop(RKClient *C) {
-    if (C->state > RKClientStateCreating && C->state < RKClientStateDisconnecting) {
+    if (C->state >= RKClientStateCreating && C->state < RKClientStateDisconnecting) {
         RKLog("%s Disconnecting ...\n", C->name);
         pthread_mutex_lock(&C->lock);
         C->state = RKClientStateDisconnecting;
-- 
2.43.0


From b868f6711220675b6c76aa9c8ee8a08a33ddb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 046/183] fix: strip the tail of an empty string without
 reading in front of it

---
 source/RKMisc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 567b8d4..65d6638 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1019,7 +1019,7 @@ char *RKSignalString(const int signal) {
 int RKStripTail(char *string) {
     int k = 0;
     char *c = string + strlen(string) - 1;
-    while (c != string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == 10)) {
+    while (c > string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == 10)) {
         *c-- = '\0';
         k++;
     }
-- 
2.43.0


From ab2a88da7866fc63dd890a6aa5d97a864365bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 047/183] fix: read back the values a product file was written
 with

---
 source/RKProductFile.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index cdbd4a1..561f999 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -171,10 +171,10 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     nc_put_att_float(ncid, NC_GLOBAL, "RangeFolded", NC_FLOAT, 1, &tmpf);
     put_global_text_att(ncid, "RadarParameters", "PRF PulseWidth MaximumRange");
     put_global_text_att(ncid, "PRF-unit", "Hertz");
-    tmpi = (int)(1.0f / product->header.prt[0]);
+    tmpi = product->header.prt[0] > 0.0f ? (int)roundf(1.0f / product->header.prt[0]) : 0;
     nc_put_att_int(ncid, NC_GLOBAL, "PRF-value", NC_INT, 1, &tmpi);
     put_global_text_att(ncid, "PulseWidth-unit", "MicroSeconds");
-    tmpf = (float)product->header.pw[0] * 1000.0f;
+    tmpf = (float)product->header.pw[0] * 1.0e6f;
     nc_put_att_float(ncid, NC_GLOBAL, "PulseWidth-value", NC_FLOAT, 1, &tmpf);
     put_global_text_att(ncid, "MaximumRange-unit", "KiloMeters");
     tmpf = 1.0e-3f * product->header.gateSizeMeters * product->header.gateCount;
@@ -399,11 +399,8 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     getGlobalTextAttribute(product->desc.unit, "Unit-value", ncid);
     getGlobalTextAttribute(product->desc.colormap, "ColorMap-value", ncid);
     getGlobalTextAttribute(stringValue, "ScanType", ncid);
-    if (!strcmp(stringValue, "PPI")) {
-        product->header.isPPI = true;
-    } else if (!strcmp(stringValue, "RHI")) {
-        product->header.isRHI = true;
-    }
+    product->header.isPPI = !strcmp(stringValue, "PPI");
+    product->header.isRHI = !strcmp(stringValue, "RHI");
     getGlobalTextAttribute(product->header.radarName, "radarName-value", ncid);
     getGlobalTextAttribute(product->header.waveformName, "Waveform", ncid);
     getGlobalTextAttribute(product->header.vcpDefinition, "RadarKit-VCP-Definition", ncid);
@@ -443,7 +440,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         product->header.gateSizeMeters = 0.0f;
     }
     nc_get_att_long(ncid, NC_GLOBAL, "Time", &product->header.startTime);
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-unit", &product->header.wavelength);
+    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-value", &product->header.wavelength);
     if (r != NC_NOERR) {
         product->header.wavelength = 0.0f;
     }
@@ -451,7 +448,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (r == NC_NOERR) {
         if (iv == 0) {
             RKLog("Warning. Recorded PRF = 0 Hz. Assuming 1000 Hz ...\n");
-            product->header.prt[0] = 1000.0f;
+            product->header.prt[0] = 1.0e-3f;
         } else {
             product->header.prt[0] = 1.0f / (RKFloat)iv;
         }
@@ -462,10 +459,10 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (r == NC_NOERR && product->header.wavelength == 0.0f && product->header.prt[0] > 0.0f) {
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
-    nc_get_att_int(ncid, NC_GLOBAL, "PulseWidth-value", &iv);
-    r = nc_get_att_text(ncid, NC_GLOBAL, "PulseWidth-unit", stringValue);
+    r = nc_get_att_float(ncid, NC_GLOBAL, "PulseWidth-value", &fv);
+    getGlobalTextAttribute(stringValue, "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
-        product->header.pw[0] = 1.0e-3 * (float)iv;
+        product->header.pw[0] = 1.0e-6f * fv;
     }
     get_global_float_att(ncid, floatType, "NoiseH-ADU", &product->header.noise[0]);
     get_global_float_att(ncid, floatType, "NoiseV-ADU", &product->header.noise[1]);
-- 
2.43.0


From cb872928d2c91808619334d29bb3a306bc4799a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 048/183] fix: read product files of RHI sweeps

---
 source/RKProductFile.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 561f999..aeecfc7 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -298,6 +298,11 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
     if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
         r = nc_inq_dimid(ncid, "azimuth", &tmpId);
     }
+    if (r != NC_NOERR) {
+        if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+            r = nc_inq_dimid(ncid, "elevation", &tmpId);
+        }
+    }
     if (r != NC_NOERR) {
         if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
             r = nc_inq_dimid(ncid, "beam", &tmpId);
@@ -361,6 +366,11 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
         r = nc_inq_dimid(ncid, "azimuth", &tmpId);
     }
+    if (r != NC_NOERR) {
+        if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+            r = nc_inq_dimid(ncid, "elevation", &tmpId);
+        }
+    }
     if (r != NC_NOERR) {
         if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
             r = nc_inq_dimid(ncid, "beam", &tmpId);
-- 
2.43.0


From 3ef4fa122c5f008c759e1758491f8f5860796f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 049/183] fix: report product files that could not be written,
 leave the product as it is

---
 source/RKProductFile.c | 45 ++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index aeecfc7..5f1e44f 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -33,7 +33,7 @@ static int get_global_float_att(const int ncid, const nc_type type, const char *
 }
 
 int RKProductFileWriterNC(RKProduct *product, const char *filename) {
-    int j;
+    int j, k, r;
     int ncid;
     int dimensionIds[2];
     int variableIdAzimuth;
@@ -77,6 +77,12 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
 
     // Local memory
     RKFloat *array1D = (RKFloat *)malloc(MAX(product->header.rayCount, product->header.gateCount) * sizeof(RKFloat));
+    if (array1D == NULL) {
+        RKLog("Error. Unable to allocate memory for %s\n", filename);
+        nc_close(ncid);
+        return RKResultFailedToOpenFileForProduct;
+    }
+    memset(array1D, 0, MAX(product->header.rayCount, product->header.gateCount) * sizeof(RKFloat));
 
     // Scan type
     if (product->header.isPPI) {
@@ -93,7 +99,12 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     nc_def_var(ncid, "Elevation", NC_FLOAT, 1, dimensionIds, &variableIdElevation);
     nc_def_var(ncid, "Beamwidth", NC_FLOAT, 1, dimensionIds, &variableIdBeamwidth);
     nc_def_var(ncid, "GateWidth", NC_FLOAT, 1, dimensionIds, &variableIdGateWidth);
-    nc_def_var(ncid, product->desc.name, NC_FLOAT, 2, dimensionIds, &variableIdData);
+    if ((r = nc_def_var(ncid, product->desc.name, NC_FLOAT, 2, dimensionIds, &variableIdData)) != NC_NOERR) {
+        RKLog("Error. Unable to define '%s' in %s (%s)\n", product->desc.name, filename, nc_strerror(r));
+        nc_close(ncid);
+        free(array1D);
+        return RKResultFailedToOpenFileForProduct;
+    }
 
     nc_put_att_text(ncid, variableIdAzimuth, "Units", 7, "Degrees");
     nc_put_att_text(ncid, variableIdElevation, "Units", 7, "Degrees");
@@ -202,13 +213,13 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     put_global_text_att(ncid, "ContactInformation", "https://arrc.ou.edu");
 
     // NetCDF definition ends here
-    nc_enddef(ncid);
+    r = nc_enddef(ncid);
 
     // Data
 #if RKFloat == float
 
-    nc_put_var_float(ncid, variableIdAzimuth, product->startAzimuth);
-    nc_put_var_float(ncid, variableIdElevation, product->startElevation);
+    r = r ? r : nc_put_var_float(ncid, variableIdAzimuth, product->startAzimuth);
+    r = r ? r : nc_put_var_float(ncid, variableIdElevation, product->startElevation);
     if (product->header.isPPI) {
         for (j = 0; j < product->header.rayCount; j++) {
             array1D[j] = RKUMinDiff(product->endAzimuth[j], product->startAzimuth[j]);
@@ -218,20 +229,23 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
             array1D[j] = RKUMinDiff(product->endElevation[j], product->startElevation[j]);
         }
     }
-    nc_put_var_float(ncid, variableIdBeamwidth, array1D);
+    r = r ? r : nc_put_var_float(ncid, variableIdBeamwidth, array1D);
     for (j = 0; j < product->header.rayCount; j++) {
         array1D[j] = product->header.gateSizeMeters;
     }
-    nc_put_var_float(ncid, variableIdGateWidth, array1D);
+    r = r ? r : nc_put_var_float(ncid, variableIdGateWidth, array1D);
 
+    // The data are replaced in a copy of each row, the product remains as is
     x = product->data;
-    for (j = 0; j < product->header.rayCount * product->header.gateCount; j++) {
-        if (!isfinite(*x)) {
-            *x = W2_MISSING_DATA;
+    for (j = 0; r == NC_NOERR && j < product->header.rayCount; j++) {
+        const size_t origin[] = {j, 0};
+        const size_t count[] = {1, product->header.gateCount};
+        for (k = 0; k < product->header.gateCount; k++) {
+            array1D[k] = isfinite(*x) ? *x : (RKFloat)W2_MISSING_DATA;
+            x++;
         }
-        x++;
+        r = nc_put_vara_float(ncid, variableIdData, origin, count, array1D);
     }
-    nc_put_var_float(ncid, variableIdData, product->data);
 
 #elif RKloat == double
 
@@ -267,10 +281,15 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
 
 #endif
 
-    ncclose(ncid);
+    j = nc_close(ncid);
+    r = r ? r : j;
 
     free(array1D);
 
+    if (r != NC_NOERR) {
+        RKLog("Error. Unable to write %s (%s)\n", filename, nc_strerror(r));
+        return RKResultFailedToOpenFileForProduct;
+    }
     return RKResultSuccess;
 }
 
-- 
2.43.0


From cc75611d4e9ae1c58b75ab34e3440388b4db8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 050/183] fix: read product files within the bounds of the
 product

---
 source/RKProductFile.c | 73 +++++++++++++++++++++++++++++-------------
 source/RKSweepFile.c   | 52 +++++++++++++++++++++++-------
 2 files changed, 91 insertions(+), 34 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 5f1e44f..b365fc6 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -8,17 +8,39 @@
 
 #include <RadarKit/RKProductFile.h>
 
-#if RKFloat == float
-#define rk_nc_get_var_float   nc_get_var_float
-#else
-#define rk_nc_get_var_float   nc_get_var_double
-#endif
-
-static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
+static void getGlobalTextAttribute(char *dst, const size_t size, const char *name, const int ncid) {
     size_t n = 0;
-    nc_get_att_text(ncid, NC_GLOBAL, name, dst);
-    nc_inq_attlen(ncid, NC_GLOBAL, name, &n);
-    dst[n] = 0;
+    nc_type type;
+    char *text;
+    dst[0] = 0;
+    if (nc_inq_att(ncid, NC_GLOBAL, name, &type, &n) != NC_NOERR || type != NC_CHAR || n == 0 || (text = (char *)malloc(n)) == NULL) {
+        return;
+    }
+    if (nc_get_att_text(ncid, NC_GLOBAL, name, text) == NC_NOERR) {
+        n = MIN(n, size - 1);
+        memcpy(dst, text, n);
+        dst[n] = 0;
+    }
+    free(text);
+}
+
+// Read up to rayCount x gateCount elements of a variable, whatever the dimensions of the variable are
+static int getVariable(const int ncid, const int id, const size_t rayCount, const size_t gateCount, float *dst) {
+    int k, r, n = 0;
+    int ids[NC_MAX_VAR_DIMS];
+    size_t origin[NC_MAX_VAR_DIMS];
+    size_t count[NC_MAX_VAR_DIMS];
+    if ((r = nc_inq_varndims(ncid, id, &n)) != NC_NOERR || (r = nc_inq_vardimid(ncid, id, ids)) != NC_NOERR) {
+        return r;
+    }
+    for (k = 0; k < n; k++) {
+        if ((r = nc_inq_dimlen(ncid, ids[k], &count[k])) != NC_NOERR) {
+            return r;
+        }
+        origin[k] = 0;
+        count[k] = MIN(count[k], k == 0 ? rayCount : (k == 1 ? gateCount : 1));
+    }
+    return nc_get_vara_float(ncid, id, origin, count, dst);
 }
 
 static int put_global_text_att(const int ncid, const char *att, const char *text) {
@@ -420,19 +442,26 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (product->header.rayCount != (uint32_t)rayCount || product->header.gateCount != (uint32_t)gateCount) {
         RKLog("Warning. Inconsistent dimentions: %u x %u  vs  %u x %u\n",
               (uint32_t)rayCount, (uint32_t)gateCount, product->header.rayCount, product->header.gateCount);
+        if (rayCount == 0 || gateCount == 0 || rayCount > product->header.rayCount || rayCount * gateCount > product->capacity) {
+            RKLog("Error. %s does not fit the buffer.\n", filename);
+            nc_close(ncid);
+            return;
+        }
+        product->header.rayCount = (uint32_t)rayCount;
+        product->header.gateCount = (uint32_t)gateCount;
     }
     RKGetSymbolFromFilename(filename, product->desc.symbol);
 
     // Global attributes
-    getGlobalTextAttribute(product->desc.name, "TypeName", ncid);
-    getGlobalTextAttribute(product->desc.unit, "Unit-value", ncid);
-    getGlobalTextAttribute(product->desc.colormap, "ColorMap-value", ncid);
-    getGlobalTextAttribute(stringValue, "ScanType", ncid);
+    getGlobalTextAttribute(product->desc.name, sizeof(product->desc.name), "TypeName", ncid);
+    getGlobalTextAttribute(product->desc.unit, sizeof(product->desc.unit), "Unit-value", ncid);
+    getGlobalTextAttribute(product->desc.colormap, sizeof(product->desc.colormap), "ColorMap-value", ncid);
+    getGlobalTextAttribute(stringValue, sizeof(stringValue), "ScanType", ncid);
     product->header.isPPI = !strcmp(stringValue, "PPI");
     product->header.isRHI = !strcmp(stringValue, "RHI");
-    getGlobalTextAttribute(product->header.radarName, "radarName-value", ncid);
-    getGlobalTextAttribute(product->header.waveformName, "Waveform", ncid);
-    getGlobalTextAttribute(product->header.vcpDefinition, "RadarKit-VCP-Definition", ncid);
+    getGlobalTextAttribute(product->header.radarName, sizeof(product->header.radarName), "radarName-value", ncid);
+    getGlobalTextAttribute(product->header.waveformName, sizeof(product->header.waveformName), "Waveform", ncid);
+    getGlobalTextAttribute(product->header.vcpDefinition, sizeof(product->header.vcpDefinition), "RadarKit-VCP-Definition", ncid);
 
     r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &product->header.latitude);
     if (r != NC_NOERR) {
@@ -489,7 +518,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
     r = nc_get_att_float(ncid, NC_GLOBAL, "PulseWidth-value", &fv);
-    getGlobalTextAttribute(stringValue, "PulseWidth-unit", ncid);
+    getGlobalTextAttribute(stringValue, sizeof(stringValue), "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
         product->header.pw[0] = 1.0e-6f * fv;
     }
@@ -540,7 +569,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         r = nc_inq_varid(ncid, "elevation", &tmpId);
     }
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->startElevation);
+        getVariable(ncid, tmpId, rayCount, 1, product->startElevation);
     } else {
         RKLog("Warning. No elevation array.\n");
     }
@@ -550,7 +579,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         r = nc_inq_varid(ncid, "azimuth", &tmpId);
     }
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->startAzimuth);
+        getVariable(ncid, tmpId, rayCount, 1, product->startAzimuth);
     } else {
         RKLog("Warning. No azimuth array.\n");
     }
@@ -563,7 +592,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
             }
         }
         if (r == NC_NOERR) {
-            nc_get_var_float(ncid, tmpId, product->data);
+            getVariable(ncid, tmpId, rayCount, 1, product->data);
             product->header.gateSizeMeters = product->data[0];
         }
     }
@@ -571,7 +600,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     // Data array
     r = nc_inq_varid(ncid, product->desc.name, &tmpId);
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->data);
+        getVariable(ncid, tmpId, rayCount, gateCount, product->data);
         fp = product->data;
         for (r = 0; r < product->capacity; r++) {
             if (*fp == missing || *fp == folded) {
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index aa6ea33..0a715d2 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -10,11 +10,39 @@
 
 #include <RadarKit/RKSweepFile.h>
 
-static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
+static void getGlobalTextAttribute(char *dst, const size_t size, const char *name, const int ncid) {
     size_t n = 0;
-    nc_get_att_text(ncid, NC_GLOBAL, name, dst);
-    nc_inq_attlen(ncid, NC_GLOBAL, name, &n);
-    dst[n] = 0;
+    nc_type type;
+    char *text;
+    dst[0] = 0;
+    if (nc_inq_att(ncid, NC_GLOBAL, name, &type, &n) != NC_NOERR || type != NC_CHAR || n == 0 || (text = (char *)malloc(n)) == NULL) {
+        return;
+    }
+    if (nc_get_att_text(ncid, NC_GLOBAL, name, text) == NC_NOERR) {
+        n = MIN(n, size - 1);
+        memcpy(dst, text, n);
+        dst[n] = 0;
+    }
+    free(text);
+}
+
+// Read up to rayCount x gateCount elements of a variable, whatever the dimensions of the variable are
+static int getVariable(const int ncid, const int id, const size_t rayCount, const size_t gateCount, float *dst) {
+    int k, r, n = 0;
+    int ids[NC_MAX_VAR_DIMS];
+    size_t origin[NC_MAX_VAR_DIMS];
+    size_t count[NC_MAX_VAR_DIMS];
+    if ((r = nc_inq_varndims(ncid, id, &n)) != NC_NOERR || (r = nc_inq_vardimid(ncid, id, ids)) != NC_NOERR) {
+        return r;
+    }
+    for (k = 0; k < n; k++) {
+        if ((r = nc_inq_dimlen(ncid, ids[k], &count[k])) != NC_NOERR) {
+            return r;
+        }
+        origin[k] = 0;
+        count[k] = MIN(count[k], k == 0 ? rayCount : (k == 1 ? gateCount : 1));
+    }
+    return nc_get_vara_float(ncid, id, origin, count, dst);
 }
 
 RKSweep *RKSweepFileRead(const char *inputFile) {
@@ -172,9 +200,9 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             ray = (RKRay *)sweep->rayBuffer;
 
             // Global attributes
-            getGlobalTextAttribute(typeName, "TypeName", ncid);
-            getGlobalTextAttribute(scanType, "ScanType", ncid);
-            getGlobalTextAttribute(sweep->header.desc.name, "radarName-value", ncid);
+            getGlobalTextAttribute(typeName, sizeof(typeName), "TypeName", ncid);
+            getGlobalTextAttribute(scanType, sizeof(scanType), "ScanType", ncid);
+            getGlobalTextAttribute(sweep->header.desc.name, sizeof(sweep->header.desc.name), "radarName-value", ncid);
             r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &sweep->header.desc.latitude);
             if (r != NC_NOERR) {
                 r = nc_get_att_float(ncid, NC_GLOBAL, "Latitude", &fv);
@@ -233,7 +261,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 r = nc_inq_varid(ncid, "elevation", &tmpId);
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getVariable(ncid, tmpId, rayCount, 1, scratch);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -249,7 +277,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 r = nc_inq_varid(ncid, "azimuth", &tmpId);
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getVariable(ncid, tmpId, rayCount, 1, scratch);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -266,7 +294,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 }
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getVariable(ncid, tmpId, rayCount, 1, scratch);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -284,7 +312,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 }
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getVariable(ncid, tmpId, rayCount, 1, scratch);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -335,7 +363,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             RKLog("Base moment %s not found.\n", productNames[k]);
             continue;
         }
-        nc_get_var_float(ncid, tmpId, scratch);
+        getVariable(ncid, tmpId, rayCount, gateCount, scratch);
         fp = (float *)scratch;
         for (j = 0; j < rayCount * gateCount; j++) {
             if (*fp == w2_missing_data || *fp == w2_range_folded) {
-- 
2.43.0


From 8c4e3d802588d4e3bfce0d08066a9b81dacdac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 051/183] fix: find and read the product files of a sweep

---
 source/RKSweepFile.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 0a715d2..f5925dc 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -76,13 +76,9 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
     // Filename in conventions of RADAR-20180101-010203-EL10.2-Z.nc
 
     // Find the last '.'
-    char *e = NULL;
-    e = strstr(inputFile, ".");
+    char *e = strrchr(inputFile, '.');
     if (e == NULL) {
-        e = (char *)inputFile + strlen(inputFile) - 1;
-    }
-    while (*(e + 1) >= '0' && *(e + 1) <= '9') {
-        e = strstr(e + 1, ".");
+        e = (char *)inputFile + strlen(inputFile);
     }
     // Find the previous '-'
     char *b = e;
@@ -98,7 +94,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
     firstPartLength = (uint32_t)(b - inputFile);
     char symbol[RKMaximumSymbolLength];
     memset(symbol, 0, RKMaximumSymbolLength);
-    strncpy(symbol, b, MIN(RKMaximumSymbolLength, e - b));
+    strncpy(symbol, b, MIN(RKMaximumSymbolLength - 1, e - b));
     // Substitute symbol with the ones I know
     char symbols[][RKNameLength] = {"Z", "V", "W", "D", "P", "R", "K"};
     RKName productNames[] = {
@@ -145,6 +141,11 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
                 r = nc_inq_dimid(ncid, "azimuth", &tmpId);
             }
+            if (r != NC_NOERR) {
+                if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+                    r = nc_inq_dimid(ncid, "elevation", &tmpId);
+                }
+            }
             if (r != NC_NOERR) {
                 if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
                     r = nc_inq_dimid(ncid, "beam", &tmpId);
@@ -172,6 +173,12 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 gateCount = RKMaximumGateCount;
             }
 
+            if (rayCount == 0 || gateCount == 0 || rayCount > RKMaximumRaysPerSweep) {
+                RKLog("%s Error. Unable to hold %u rays of %u gates\n", name, (uint32_t)rayCount, (uint32_t)gateCount);
+                nc_close(ncid);
+                return NULL;
+            }
+
             // Derive the RKMemoryAlignSize compliant capacity
             capacity = (uint32_t)ceilf((float)gateCount / RKMemoryAlignSize) * RKMemoryAlignSize;
 
@@ -346,12 +353,12 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             RKLog("%s not found.\n", filename);
             continue;
         }
-        productList |= products[k];
-
         // Open the file
         if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
             RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
             free(scratch);
+            RKRayBufferFree(sweep->rayBuffer);
+            free(sweep);
             return NULL;
         }
 
@@ -361,9 +368,11 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         r = nc_inq_varid(ncid, productNames[k], &tmpId);
         if (r != NC_NOERR) {
             RKLog("Base moment %s not found.\n", productNames[k]);
+            nc_close(ncid);
             continue;
         }
         getVariable(ncid, tmpId, rayCount, gateCount, scratch);
+        productList |= products[k];
         fp = (float *)scratch;
         for (j = 0; j < rayCount * gateCount; j++) {
             if (*fp == w2_missing_data || *fp == w2_range_folded) {
-- 
2.43.0


From 504c6663fdb8113b3499c2cef5c89e35bbb187ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 052/183] fix: list the files of the same prefix in other
 folders

---
 source/RKFoundation.c | 3 ++-
 source/RKMisc.c       | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 3bd209a..007f8e5 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -479,6 +479,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     if (r == false) {
         //fprintf(stderr, "RKListFilesWithSamePrefix() Unable to continue.\n");
         RKLog("RKListFilesWithSamePrefix() Not a standard filename. Early return.\n");
+        closedir(dir);
         return 0;
     }
     char *ext = RKFileExtension(filename);
@@ -510,7 +511,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     strcpy(desiredSymbol[k++], "P");
     strcpy(desiredSymbol[k++], "R");
     strcpy(desiredSymbol[k++], "K");
-    for (k = 0; k < count; k++) {
+    for (k = 0; k < MIN(count, 7); k++) {
         RKGetSymbolFromFilename(list[k], symbol);
         //printf("k = %d   symbol = %s\n", k, symbol);
         if (!strcmp(symbol, desiredSymbol[k])) {
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 65d6638..b75bc24 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -912,8 +912,7 @@ char *RKFolderOfFilename(const char *filename) {
     } else if (s == filename) {
         strcpy(folder, "/");
     } else {
-        strncpy(folder, filename, sizeof(folder) - 1);
-        folder[sizeof(folder) - 1] = '\0';
+        snprintf(folder, sizeof(folder), "%.*s", (int)(s - filename), filename);
     }
     return folder;
 }
-- 
2.43.0


From 4bf95b185929c9b0e93f22e2c234265f7cd04fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 053/183] fix: keep the scan definition of a product whole

---
 source/RKProduct.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKProduct.c b/source/RKProduct.c
index 2dc5303..7881499 100644
--- a/source/RKProduct.c
+++ b/source/RKProduct.c
@@ -101,7 +101,7 @@ int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
     product->header.SNRThreshold = sweep->header.config.SNRThreshold;
     product->header.SQIThreshold = sweep->header.config.SQIThreshold;
     memcpy(product->header.waveformName, sweep->header.config.waveformName, sizeof(RKName));
-    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, sizeof(RKMaximumCommandLength));
+    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, RKMaximumCommandLength);
 
     // Expand if the current capacity is not sufficient
     if (product->capacity < requiredCapacity) {
-- 
2.43.0


From de9254700a3bcae2335d09e37ec53aaa598e74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 054/183] fix: list only the files that begin with the prefix

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 007f8e5..f1b5342 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -490,7 +490,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
         if (ent->d_type != DT_LNK && ent->d_type != DT_REG) {
             continue;
         }
-        if (strstr(ent->d_name, prefix) && strstr(ent->d_name, ext)) {
+        if (!strncmp(ent->d_name, prefix, strlen(prefix)) && ent->d_name[strlen(prefix)] == '-' && strstr(ent->d_name, ext)) {
             //printf("  -> %s/%s\n", path, ent->d_name);
             if (strcmp(".", path)) {
                 sprintf(list[k++], "%s/%s", path, ent->d_name);
-- 
2.43.0


From 154e334ed0776db7fcf094e7bdf58f972efccdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 055/183] fix: refuse product files of more data than a product
 can hold

---
 source/RKProduct.c     | 5 +++++
 source/RKProductFile.c | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/RKProduct.c b/source/RKProduct.c
index 7881499..b2a86dc 100644
--- a/source/RKProduct.c
+++ b/source/RKProduct.c
@@ -11,6 +11,11 @@
 size_t RKProductBufferAlloc(RKProduct **buffer, const uint32_t depth, const uint32_t rayCount, const uint32_t gateCount) {
     int i;
 
+    if ((uint64_t)rayCount * MAX(gateCount, 1) * sizeof(RKFloat) > UINT32_MAX) {
+        RKLog("Error. Unable to hold products of %u x %u.\n", rayCount, gateCount);
+        *buffer = NULL;
+        return 0;
+    }
     RKProduct *products = (RKProduct *)malloc(depth * sizeof(RKProduct));
     if (products == NULL) {
         RKLog("Error. Unable to allocate product buffer.\n");
diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index b365fc6..7d302fd 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -623,7 +623,9 @@ RKProduct *RKProductFileReaderNC(const char *inputFile, const bool showInfo) {
 
     RKProductDimensionsFromFile(inputFile, &rayCount, &gateCount);
 
-    RKProductBufferAlloc(&product, 1, rayCount, gateCount);
+    if (RKProductBufferAlloc(&product, 1, rayCount, gateCount) == 0) {
+        return NULL;
+    }
 
     RKProductReadFileIntoBuffer(product, inputFile, showInfo);
 
@@ -658,7 +660,10 @@ RKProductCollection *RKProductCollectionInitWithFilename(const char *firstFilena
         return NULL;
     }
 
-    RKProductBufferAlloc(&productCollection->products, productCollection->count, rayCount, gateCount);
+    if (RKProductBufferAlloc(&productCollection->products, productCollection->count, rayCount, gateCount) == 0) {
+        free(productCollection);
+        return NULL;
+    }
     for (k = 0; k < productCollection->count; k++) {
         if (strlen(list[k]) > 40) {
             RKLog("RKProductCollectionInitWithFilename() ...%s\n", RKLastNPartsOfPath(list[k], 3));
-- 
2.43.0


From 07e5ecc1f1ca1b1f70bb600755e397976235a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 056/183] fix: show arrays of few elements or large values
 within bounds

---
 source/RKFoundation.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index f1b5342..5da3cd9 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -770,11 +770,14 @@ void RKShowVecComplex(const char *name, const RKComplex *p, const int n) {
 static char *arrayHeadTailElementsInString(const float *d, const int length) {
     int c, k = 0;
     static char line[1024];
-    for (c = 0; c < 3; c++) {
+    line[0] = '\0';
+    for (c = 0; c < MIN(3, length); c++) {
         k += sprintf(line + k, " %6.2f", *(d + c));
     }
-    k += sprintf(line + k, " ...");
-    for (c = length - 3; c < length; c++) {
+    if (length > 6) {
+        k += sprintf(line + k, " ...");
+    }
+    for (c = MAX(3, length - 3); c < length; c++) {
         k += sprintf(line + k, " %6.2f", *(d + c));
     }
     return line;
@@ -782,7 +785,7 @@ static char *arrayHeadTailElementsInString(const float *d, const int length) {
 
 void RKShowArray(const RKFloat *data, const char *letter, const int width, const int height) {
     int j, k = 0, n = (int)strlen(letter);
-    char text[1024];
+    char text[4096];
     char pad[n + 1];
     memset(pad, ' ', n);
     pad[n] = '\0';
-- 
2.43.0


From bb8dc433706361b4ed13bc5ad2b0196e56bc642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 057/183] fix: group the digits of negative and of large
 numbers

---
 source/RKMisc.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index b75bc24..1cebef6 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -618,11 +618,12 @@ char *RKIntegerToCommaStyleString(const long long num) {
         return string;
     }
 
-    k = (int)(strlen(string) - 1) / 3;
-    i = (int)(strlen(string) + k);
+    // Only the digits are grouped, not the sign
+    k = (i - (num < 0) - 1) / 3;
+    i += k;
     j = 1;
     string[i] = '\0';
-    while (i > 0) {
+    while (i > 0 && k > 0) {
         i--;
         string[i] = string[i - k];
         if (j > 3) {
@@ -681,13 +682,20 @@ char *RKFloatToCommaStyleString(const double num) {
     ibuf = ibuf == 31 ? 0 : ibuf + 1;
     pthread_mutex_unlock(&lock);
 
+    // Numbers that are not finite or have too many digits to be grouped
+    if (!(fabs(num) < 1.0e18)) {
+        snprintf(string, sizeof(stringBuffer[0]), "%.3e", num);
+        return string;
+    }
+
     i = sprintf(string, "%.3f", num);
     if (i <= 7) {
         return string;
     }
 
-    k = (int)(strlen(string) - 5) / 3;
-    i = (int)(strlen(string) + k);
+    // Only the digits are grouped, not the sign
+    k = (i - (string[0] == '-') - 5) / 3;
+    i += k;
     j = 1;
     string[i] = '\0';
     string[i - 1] = string[i - k - 1];
@@ -696,7 +704,7 @@ char *RKFloatToCommaStyleString(const double num) {
     string[i - 4] = '.';
     i -= 4;
 
-    while (i > 0) {
+    while (i > 0 && k > 0) {
         i--;
         string[i] = string[i - k];
         if (j > 3) {
-- 
2.43.0


From 1a669b695d08c3396b659550fdac56c6b679b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 058/183] fix: take the parts of any path within its bounds

---
 source/RKMisc.c | 41 +++++++++++------------------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 1cebef6..4245bf7 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -882,34 +882,18 @@ char *RKLastPartOfPath(const char *path) {
 }
 
 char *RKLastTwoPartsOfPath(const char *path) {
-    char *a0 = strchr((char *)path, '/');
-    char *a1 = strchr(a0 + 1, '/');
-    char *a2 = strchr(a1 + 1, '/');
-    if (a0 == NULL) {
-        return a0;
-    } else if (a1 != NULL) {
-        if (a2 == NULL) {
-            return a1;
-        } else if (a2 != NULL) {
-            do {
-                a0 = a1;
-                a1 = a2;
-                a2 = strchr(a2 + 1, '/');
-            } while (a2 != NULL);
-        }
-    }
-    return a0 + 1;
+    return RKLastNPartsOfPath(path, 2);
 }
 
 char *RKLastNPartsOfPath(const char *path, const int n) {
     char *a = (char *)path + strlen(path);
     int k = 0;
-    do {
+    while (a > path && k < n) {
         if (*--a == '/') {
             k++;
         }
-    } while (a > path && k < n);
-    return a + 1;
+    }
+    return *a == '/' ? a + 1 : a;
 }
 
 char *RKFolderOfFilename(const char *filename) {
@@ -927,12 +911,12 @@ char *RKFolderOfFilename(const char *filename) {
 
 char *RKFileExtension(const char *filename) {
     static char ext[16];
-    char *e = strrchr((char *)filename, '.');
+    char *e = strrchr(RKLastPartOfPath(filename), '.');
     if (e == NULL) {
         ext[0] = '\0';
         return ext;
     }
-    strcpy(ext, e);
+    snprintf(ext, sizeof(ext), "%s", e);
     return ext;
 }
 
@@ -943,17 +927,14 @@ char *RKPathStringByExpandingTilde(const char *path) {
     while (*c == ' ') {
         c++;
     }
-    if (*c == '~') {
+    if (*c == '~' && (*(c + 1) == '/' || *(c + 1) == '\0')) {
         char *home = getenv("HOME");
         if (home != NULL) {
-            k = snprintf(fullpath, sizeof(fullpath), "%s", getenv("HOME"));
-            k--;
-            if (fullpath[k] == '/') {
-                fullpath[k] = '\0';
-            } else {
-                k++;
+            k = (int)strlen(home);
+            if (k > 0 && home[k - 1] == '/') {
+                k--;
             }
-            snprintf(fullpath + k, sizeof(fullpath) - k, "/%s", c + 2);
+            snprintf(fullpath, sizeof(fullpath), "%.*s%s", k, home, *(c + 1) == '\0' ? "/" : c + 1);
         } else {
             fprintf(stderr, "Error. HOME environmental variable not set.\n");
             snprintf(fullpath, sizeof(fullpath), "%s", c);
-- 
2.43.0


From 1b625a33bb613a72a7a9915a78ff92bfe55a9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 059/183] fix: keep text helpers within the bounds of short and
 long texts

---
 source/RKMisc.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 4245bf7..2b21d19 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1020,6 +1020,9 @@ int RKUnquote(char *string) {
         return (int)strlen(string);
     }
     char *e = strrchr(string + 1, q);
+    if (e == NULL) {
+        return (int)strlen(string);
+    }
     int k = (int)(e - string - 1);
     memmove(string, string + 1, k);
     string[k] = '\0';
@@ -1104,15 +1107,16 @@ char *RKStripEscapeSequence(const char *line) {
     char *e;
     char *d = string;
     char *s = (char *)line;
+    const char *end = string + sizeof(string) - 1;
     while (*s != '\0') {
         e = strchr(s, '\033');
         if (e == NULL || *(e + 1) != '[') {
-            n = (int)strlen(s);
+            n = (int)MIN(strlen(s), (size_t)(end - d));
             memcpy(d, s, n);
             d += n;
             break;
         }
-        n = (int)(e - s);
+        n = (int)MIN(e - s, end - d);
         if (n) {
             memcpy(d, s, n);
             d += n;
@@ -1599,8 +1603,8 @@ int RKMergeColumns(char *text, const char *left, const char *right, const int in
             n = (int)strlen(plain);
             //printf("%s (%d) -> %s (%d)\n", ls, (int)(le - ls), plain, n);
             m += sprintf(text + m, format, ls);
-            memset(text + m, ' ', u - n);
-            m += (u - n);
+            memset(text + m, ' ', MAX(0, u - n));
+            m += MAX(0, u - n);
             ls = le + 1;
             if (*ls == '\0') {
                 ls = NULL;
@@ -1618,8 +1622,8 @@ int RKMergeColumns(char *text, const char *left, const char *right, const int in
             w = MAX(w, n);
             //printf("%s (%d) -> %s (%d) |%c|\n", rs, (int)(re - rs), plain, n, *(re + 1));
             m += sprintf(text + m, "%s", rs);
-            memset(text + m, ' ', v - n);
-            m += (v - n);
+            memset(text + m, ' ', MAX(0, v - n));
+            m += MAX(0, v - n);
             rs = re + 1;
             if (*rs == '\0') {
                 rs = NULL;
@@ -1654,6 +1658,10 @@ char *RKBinaryString(char *dst, void *src, const size_t count) {
 }
 
 void RKHeadTailBinaryString(char *dst, void *src, const size_t count) {
+    if (count <= 30) {
+        RKBinaryString(dst, src, count);
+        return;
+    }
     char *tail = RKBinaryString(dst, src, 25);
     RKBinaryString(tail + sprintf(tail, " ... "), src + count - 5, 5);
 }
@@ -1680,6 +1688,10 @@ char *RKBytesInHex(char *dst, void *src, const size_t count) {
 }
 
 void RKHeadTailBytesInHex(char *dst, void *src, const size_t count) {
+    if (count <= 10) {
+        RKBytesInHex(dst, src, count);
+        return;
+    }
     char *dummy = RKBytesInHex(dst, src, 7);
     RKBytesInHex(dummy + sprintf(dummy, " ... "), src + count - 3, 3);
 }
@@ -1695,7 +1707,7 @@ void RKRadarHubPayloadString(char *dst, void *src, const size_t count) {
         }
     }
     //printf("r = %d   bound / 2 = %d\n", r, (int)bound / 2);
-    if (r > bound * 2 / 3) {
+    if (count == 0 || r > bound * 2 / 3) {
         RKHeadTailBinaryString(dst, src, count);
     } else {
         c = (uint8_t *)src;
-- 
2.43.0


From df0bc3c9399fa292696e5ff82ed3d7139c797646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 060/183] fix: read no more of a value than its type has

---
 source/RKFoundation.c | 118 +++++++++++++++++++++---------------------
 1 file changed, 60 insertions(+), 58 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 5da3cd9..6c531bf 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -809,118 +809,120 @@ void RKShowArray(const RKFloat *data, const char *letter, const int width, const
 }
 
 char *RKStringFromValue(const void *value, RKValueType type) {
-    char    *c = (char *)value;
-    float    f = *((float *)value);
-    double   d = *((double *)value);
-    int      i = *((int *)value);
-    long     l = *((long *)value);
-    unsigned int u = *((unsigned int *)value);
-    unsigned long ul = *((unsigned long *)value);
-    int8_t    i8 = *((int8_t *)value);
-    uint8_t   u8 = *((uint8_t *)value);
-    int16_t  i16 = *((int16_t *)value);
-    uint16_t u16 = *((uint16_t *)value);
-    int32_t  i32 = *((int32_t *)value);
-    uint32_t u32 = *((uint32_t *)value);
-    int64_t  i64 = *((int64_t *)value);
-    uint64_t u64 = *((uint64_t *)value);
-    size_t     s = *((size_t *)value);
-    ssize_t   ss = *((ssize_t *)value);
+    // Only as many bytes as the type has are there to be read
+    char *c = (char *)value;
     switch (type) {
         case RKValueTypeInt:
-            l = i;
+            c = RKIntegerToCommaStyleString(*(int *)value);
+            break;
         case RKValueTypeLong:
-            c = RKIntegerToCommaStyleString(l);
+            c = RKIntegerToCommaStyleString(*(long *)value);
             break;
         case RKValueTypeInt8:
-            i16 = i8;
+            c = RKIntegerToCommaStyleString(*(int8_t *)value);
+            break;
         case RKValueTypeInt16:
-            i32 = i16;
+            c = RKIntegerToCommaStyleString(*(int16_t *)value);
+            break;
         case RKValueTypeInt32:
-            i64 = i32;
+            c = RKIntegerToCommaStyleString(*(int32_t *)value);
+            break;
         case RKValueTypeInt64:
-            c = RKIntegerToCommaStyleString(i64);
+            c = RKIntegerToCommaStyleString(*(int64_t *)value);
             break;
 
         case RKValueTypeIntInHex:
-            l = i;
+            c = RKIntegerToHexStyleString(*(int *)value);
+            break;
         case RKValueTypeLongInHex:
-            c = RKIntegerToHexStyleString(l);
+            c = RKIntegerToHexStyleString(*(long *)value);
             break;
         case RKValueTypeInt8InHex:
-            i16 = i8;
+            c = RKIntegerToHexStyleString(*(int8_t *)value);
+            break;
         case RKValueTypeInt16InHex:
-            i32 = i16;
+            c = RKIntegerToHexStyleString(*(int16_t *)value);
+            break;
         case RKValueTypeInt32InHex:
-            i64 = i32;
+            c = RKIntegerToHexStyleString(*(int32_t *)value);
+            break;
         case RKValueTypeInt64InHex:
-            c = RKIntegerToHexStyleString(i64);
+            c = RKIntegerToHexStyleString(*(int64_t *)value);
             break;
 
         case RKValueTypeUInt:
-            ul = u;
+            c = RKUIntegerToCommaStyleString(*(unsigned int *)value);
+            break;
         case RKValueTypeULong:
-            c = RKUIntegerToCommaStyleString((unsigned long long)ul);
+            c = RKUIntegerToCommaStyleString(*(unsigned long *)value);
             break;
         case RKValueTypeUInt8:
-            u16 = u8;
+            c = RKUIntegerToCommaStyleString(*(uint8_t *)value);
+            break;
         case RKValueTypeUInt16:
-            u32 = u16;
+            c = RKUIntegerToCommaStyleString(*(uint16_t *)value);
+            break;
         case RKValueTypeUInt32:
-            u64 = u32;
+            c = RKUIntegerToCommaStyleString(*(uint32_t *)value);
+            break;
         case RKValueTypeUInt64:
-            c = RKUIntegerToCommaStyleString((unsigned long long)u64);
+            c = RKUIntegerToCommaStyleString(*(uint64_t *)value);
             break;
 
         case RKValueTypeUIntInHex:
-            ul = u;
+            c = RKIntegerToHexStyleString(*(unsigned int *)value);
+            break;
         case RKValueTypeULongInHex:
-            c = RKIntegerToHexStyleString((unsigned long long)ul);
+            c = RKIntegerToHexStyleString(*(unsigned long *)value);
             break;
         case RKValueTypeUInt8InHex:
-            u16 = u8;
+            c = RKIntegerToHexStyleString(*(uint8_t *)value);
+            break;
         case RKValueTypeUInt16InHex:
-            u32 = u16;
+            c = RKIntegerToHexStyleString(*(uint16_t *)value);
+            break;
         case RKValueTypeUInt32InHex:
-            u64 = u32;
+            c = RKIntegerToHexStyleString(*(uint32_t *)value);
+            break;
         case RKValueTypeUInt64InHex:
-            c = RKIntegerToHexStyleString((unsigned long long)u64);
+            c = RKIntegerToHexStyleString(*(uint64_t *)value);
             break;
 
         case RKValueTypeSize:
-            c = RKUIntegerToCommaStyleString((unsigned long long)s);
+            c = RKUIntegerToCommaStyleString(*(size_t *)value);
             break;
         case RKValueTypeSSize:
-            c = RKIntegerToCommaStyleString((long long)ss);
+            c = RKIntegerToCommaStyleString(*(ssize_t *)value);
             break;
         case RKValueTypeFloat:
-            d = f;
+            c = RKFloatToCommaStyleString(*(float *)value);
+            break;
         case RKValueTypeDouble:
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(*(double *)value);
             break;
         case RKValueTYpeFloatDividedBy1k:
-            d = f;
+            c = RKFloatToCommaStyleString(1.0e-3 * *(float *)value);
+            break;
         case RKValueTYpeDoubleDividedBy1k:
-            d = 1.0e-3 * d;
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(1.0e-3 * *(double *)value);
             break;
         case RKValueTYpeFloatDividedBy1M:
-            d = f;
+            c = RKFloatToCommaStyleString(1.0e-6 * *(float *)value);
+            break;
         case RKValueTYpeDoubleDividedBy1M:
-            d = 1.0e-6 * d;
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(1.0e-6 * *(double *)value);
             break;
         case RKValueTYpeFloatMultipliedBy1k:
-            d = f;
+            c = RKFloatToCommaStyleString(1.0e3 * *(float *)value);
+            break;
         case RKValueTYpeDoubleMultipliedBy1k:
-            d = 1.0e3 * d;
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(1.0e3 * *(double *)value);
             break;
         case RKValueTYpeFloatMultipliedBy1M:
-            d = f;
+            c = RKFloatToCommaStyleString(1.0e6 * *(float *)value);
+            break;
         case RKValueTYpeDoubleMultipliedBy1M:
-            d = 1.0e6 * d;
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(1.0e6 * *(double *)value);
             break;
         case RKValueTypeNumericString:
         default:
@@ -950,7 +952,7 @@ char *RKVariableInString(const char *name, const void *value, RKValueType type)
     pthread_mutex_unlock(&lock);
 
     char *c = RKStringFromValue(value, type);
-    bool b = *((bool *)value);
+    bool b = type == RKValueTypeBool && *((bool *)value);
 
     if (rkGlobalParameters.showColor) {
         if (type == RKValueTypeNull) {
-- 
2.43.0


From 91441fc6509679d7038087fbf04831f48c41a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 061/183] fix: find and replace values of JSON strings within
 their bounds

---
 source/RKFoundation.c   |  20 +++---
 source/RKHealthEngine.c |   2 +
 source/RKMisc.c         | 134 +++++++++++++++++++++-------------------
 3 files changed, 85 insertions(+), 71 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 6c531bf..badfcbb 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2091,13 +2091,13 @@ void RKParseQuotedStrings(const char *source, ...) {
         q = *s++;
         // Look for the ending quote
         e = s;
-        while (*e != q && *e != q) {
+        while (*e != q && *e != '\0') {
             e++;
         }
         length = (size_t)(e - s);
         strncpy(string, s, length);
         string[length] = '\0';
-        s = e + 1;
+        s = *e == '\0' ? e : e + 1;
         // Get the next string
         string = va_arg(args, char *);
     }
@@ -2196,10 +2196,10 @@ bool RKFindCondition(const char *string, const RKStatusEnum target, const bool s
     bool earlyReturn = false;
 
     char *str = (char *)malloc(L + 1);
-    char *key = (char *)malloc(RKMaximumStringLength);
-    char *obj = (char *)malloc(RKMaximumStringLength);
-    char *subKey = (char *)malloc(RKMaximumStringLength);
-    char *subObj = (char *)malloc(RKMaximumStringLength);
+    char *key = (char *)malloc(MAX(L + 1, RKMaximumStringLength));
+    char *obj = (char *)malloc(MAX(L + 1, RKMaximumStringLength));
+    char *subKey = (char *)malloc(MAX(L + 1, RKMaximumStringLength));
+    char *subObj = (char *)malloc(MAX(L + 1, RKMaximumStringLength));
     if (str == NULL) {
         RKLog("Error allocating memory for str.\n");
         earlyReturn = true;
@@ -2249,13 +2249,17 @@ bool RKFindCondition(const char *string, const RKStatusEnum target, const bool s
 
     ks = str + 1;
     while (*ks != '\0' && *ks != '}') {
-        ks = RKExtractJSON(ks, &type, key, obj);
+        if ((ks = RKExtractJSON(ks, &type, key, obj)) == NULL) {
+            break;
+        }
         if (type != RKJSONObjectTypeObject) {
             continue;
         }
         sks = obj + 1;
         while (*sks != '\0' && *sks != '}') {
-            sks = RKExtractJSON(sks, &subType, subKey, subObj);
+            if ((sks = RKExtractJSON(sks, &subType, subKey, subObj)) == NULL) {
+                break;
+            }
             if (strncmp("Enum", subKey, 4)) {
                 continue;
             }
diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 8d60438..dbfc417 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -216,6 +216,7 @@ static void *healthConsolidator(void *_in) {
         if (isnan(heading) || (desc->initFlags & RKInitFlagIgnoreHeading) || (desc->initFlags & RKInitFlagIgnoreGPS)) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
             RKReplaceEnumOfKey(string, "heading", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"Heading Override\":{\"Value\":true,\"Enum\":0}, "
@@ -240,6 +241,7 @@ static void *healthConsolidator(void *_in) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
             RKReplaceEnumOfKey(string, "latitude", RKStatusEnumNotWired);
             RKReplaceEnumOfKey(string, "longitude", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with latitude, longitude and heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"GPS Override\":{\"Value\":true,\"Enum\":0}, "
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 2b21d19..81281be 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -103,16 +103,17 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     while (*ks != '"' && *ks != '\0') {
         ks++;
     }
+    if (*ks == '\0') {
+        fprintf(stderr, "Expected an open quote for keyword\n");
+        return NULL;
+    }
     ke = ++ks;
     while (*ke != '"' && *ke != '\0') {
         ke++;
     }
     if (*ke == '\0') {
         fprintf(stderr, "Expected a close quote for keyword %s\n", ks == NULL ? "(NULL)" : ks);
-        fprintf(stderr, "Original: %s\n", ks);
-        if (ke == NULL) {
-            return NULL;
-        }
+        return NULL;
     }
     // Now a keyword is in betwee ks & ke
     strncpy(key, ks, ke - ks);
@@ -122,6 +123,10 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     while (*os != ':' && *os != '\0') {
         os++;
     }
+    if (*os == '\0') {
+        fprintf(stderr, "Expected a value for keyword %s\n", key);
+        return NULL;
+    }
     // Space character(s) in between ':' and '{'
     os++;
     while (*os == ' ') {
@@ -130,9 +135,9 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     if (*os == '{') {
         // This is an object, recursively call myself.
         *type = RKJSONObjectTypeObject;
-        oe = os + 1;
-        while (*oe != '}') {
-            oe++;
+        if ((oe = strchr(os + 1, '}')) == NULL) {
+            fprintf(stderr, "Expected a close curly bracket for the value of keyword %s\n", key);
+            return NULL;
         }
         oe++;
         strncpy(value, os, oe - os);
@@ -143,9 +148,9 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     } else if (*os == '[') {
         // This is an array
         *type = RKJSONObjectTypeArray;
-        oe = os + 1;
-        while (*oe != ']') {
-            oe++;
+        if ((oe = strchr(os + 1, ']')) == NULL) {
+            fprintf(stderr, "Expected a close bracket for the value of keyword %s\n", key);
+            return NULL;
         }
         oe++;
         strncpy(value, os, oe - os);
@@ -156,9 +161,9 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     } else if (*os == '"') {
         // This is a string
         *type = RKJSONObjectTypeString;
-        oe = os + 1;
-        while (*oe != '"') {
-            oe++;
+        if ((oe = strchr(os + 1, '"')) == NULL) {
+            fprintf(stderr, "Expected a close quote for the value of keyword %s\n", key);
+            return NULL;
         }
         oe++;
         strncpy(value, os, oe - os);
@@ -166,8 +171,8 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     } else {
         // This is just a plain value
         *type = RKJSONObjectTypePlain;
-        oe = os + 1;
-        while (*oe != ',' && *oe != '}') {
+        oe = os;
+        while (*oe != ',' && *oe != '}' && *oe != '\0') {
             oe++;
         }
         strncpy(value, os, oe - os);
@@ -205,10 +210,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
     char *s, *e;
     size_t len;
     char quotedKey[256];
-    sprintf(quotedKey, "\"%s\"", key);
+    snprintf(quotedKey, sizeof(quotedKey), "\"%s\"", key);
     char *keyPosition = strcasestr(string, quotedKey);
     if (keyPosition == NULL) {
-        sprintf(quotedKey, "'%s'", key);
+        snprintf(quotedKey, sizeof(quotedKey), "'%s'", key);
         keyPosition = strcasestr(string, quotedKey);
     }
 
@@ -226,10 +231,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         if (*s == '[') {
             // Find the end of bracket, return the entire array
             e = s + 1;
-            while (*e != ']') {
+            while (*e != ']' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(255, e - s + (*e != '\0'));
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -240,10 +245,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '{') {
             // Find the end of curly bracket, return the entire dictionary
             e = s + 1;
-            while (*e != '}') {
+            while (*e != '}' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(255, e - s + (*e != '\0'));
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -254,10 +259,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '"') {
             // Find the end of double quote, return the entire string
             e = s + 1;
-            while (*e != '"') {
+            while (*e != '"' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(255, e - s + (*e != '\0'));
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -268,10 +273,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '\'') {
             // Find the end of single quote, return the entire string
             e = s + 1;
-            while (*e != '\'') {
+            while (*e != '\'' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(255, e - s + (*e != '\0'));
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -282,7 +287,7 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         }
         // Find end of the value
         e = s;
-        while (*e != ',' && *e != '}' && *e != ']') {
+        while (*e != ',' && *e != '}' && *e != ']' && *e != '\0') {
             e++;
         }
         len = MIN(255, e - s);
@@ -301,7 +306,6 @@ void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
     int k;
     char *s = strstr(string, key);
     char *e;
-    size_t l;
     char valueString[32];
     while (s != NULL) {
         s += strlen(key);
@@ -325,16 +329,12 @@ void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
             fprintf(stderr, "RKReplaceAllValuesOfKey() encountered an expected results from sprintf().\n");
             return;
         }
-        if (e - s < k) {
-            // Need to add another character
-            l = strlen(e);
-            memmove(e + k - 1, e, l);
-            *(e + k + -1 + l) = '\0';
-        }
+        // The rest follows the new value, which may be longer or shorter
+        memmove(s + k, e, strlen(e) + 1);
         memcpy(s, valueString, k);
         //strncpy(s, valueString, k);
         //snprintf(s, k, "%s", valueString) < 0 ? abort() : (void)0;
-        s = strstr(e, key);
+        s = strstr(s + k, key);
     }
 }
 
@@ -342,7 +342,6 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
     int k;
     char *s = strcasestr(string, key);
     char *e;
-    size_t l;
     char valueString[32];
     if (s == NULL) {
         return;
@@ -351,7 +350,7 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
     if (s == NULL) {
         return;
     }
-    s += 6;
+    s += 4;
     //printf("Enum of %s found.  %s\n", key, s);
     while (*s != '\0' && (*s == '"' || *s == ' ' || *s == ':')) {
         s++;
@@ -373,30 +372,24 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
         fprintf(stderr, "RKReplaceEnumOfKey() encountered an expected results from sprintf().\n");
     }
     //printf("s = %p   e = %p   valueString = %s   k = %d ==? %d\n", s, e, valueString, (int)(e - s), k);
-    if (e - s < k) {
-        // Need to add another character
-        l = strlen(e);
-        memmove(e + k - 1, e, l);
-        *(e + k + -1 + l) = '\0';
-    }
+    // The rest follows the new value, which may be longer or shorter
+    memmove(s + k, e, strlen(e) + 1);
     memcpy(s, valueString, k);
 }
 
 void RKReviseLogicalValues(char *string) {
+    const char *values[] = {"true", "false"};
+    char quoted[8];
     char *token;
-    token = strcasestr(string, "\"true\"");
-    while (token) {
-        sprintf(token, "true");
-        memmove(token + 4, token + 6, strlen(token + 6));
-        memset(token + 4 + strlen(token + 6), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 6, "\"true\"");
-    }
-    token = strcasestr(string, "\"false\"");
-    while (token) {
-        sprintf(token, "false");
-        memmove(token + 5, token + 7, strlen(token + 7));
-        memset(token + 5 + strlen(token + 7), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 7, "\"false\"");
+    for (int k = 0; k < 2; k++) {
+        const size_t n = strlen(values[k]);
+        sprintf(quoted, "\"%s\"", values[k]);
+        token = strcasestr(string, quoted);
+        while (token) {
+            memcpy(token, values[k], n);
+            memmove(token + n, token + n + 2, strlen(token + n + 2) + 1);
+            token = strcasestr(token + n, quoted);
+        }
     }
 }
 
@@ -1501,16 +1494,20 @@ char *RKCountryFromPosition(const double latitude, const double longitude) {
 	return country;
 }
 
+// Keys of up to 127 characters, values of up to 255 characters
 char *RKGetNextKeyValue(char *json, char *key, char *value) {
     char *c = json;
     char *e = c + strlen(c);
     char *ks, *ke, *vs, *ve;
+    size_t n;
     // Forward until the next non-space character
     while (*c == ' ' && c < e) {
         c++;
     }
     if (c == e) {
-        *key = '\0';
+        if (key) {
+            *key = '\0';
+        }
         return NULL;
     }
     // Find the key
@@ -1526,12 +1523,16 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
             break;
         default:
             ke = strchr(ks, ':');
-            ke--;
             break;
     }
+    if (ke == NULL) {
+        fprintf(stderr, "Incomplete string?\n");
+        return NULL;
+    }
     if (key) {
-        memcpy(key, ks, ke - ks);
-        key[ke - ks] = '\0';
+        n = MIN(ke - ks, 127);
+        memmove(key, ks, n);
+        key[n] = '\0';
     }
     // Find the delimiter ':'
     c = strchr(ke, ':');
@@ -1545,7 +1546,9 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
         c++;
     }
     if (c == e) {
-        *value = '\0';
+        if (value) {
+            *value = '\0';
+        }
         return NULL;
     }
     // If this is bracketed piece, find the start and end
@@ -1571,9 +1574,9 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
             ve--;
             break;
     }
-    if (value) {
-        memcpy(value, vs, ve - vs + 1);
-        value[ve - vs + 1] = '\0';
+    if (ve == NULL) {
+        fprintf(stderr, "Incomplete string?\n");
+        return NULL;
     }
     if (ve == e - 1) {
         c = NULL;
@@ -1583,6 +1586,11 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
             c++;
         }
     }
+    if (value) {
+        n = MIN(ve - vs + 1, 255);
+        memmove(value, vs, n);
+        value[n] = '\0';
+    }
     return c;
 }
 
-- 
2.43.0


From 2ac69ec228988b891d2ac049acd49bd549e8c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 062/183] fix: read only single numbers from product file
 attributes

---
 source/RKProductFile.c | 56 ++++++++++++++++++++++++++++--------------
 source/RKSweepFile.c   | 41 +++++++++++++++++++++++--------
 2 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 7d302fd..1aff1f6 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -24,6 +24,29 @@ static void getGlobalTextAttribute(char *dst, const size_t size, const char *nam
     free(text);
 }
 
+// Read an attribute of one number as the requested type
+static int getAttribute(const int ncid, const char *name, const nc_type type, void *dst) {
+    size_t n = 0;
+    nc_type t;
+    int r = nc_inq_att(ncid, NC_GLOBAL, name, &t, &n);
+    if (r != NC_NOERR) {
+        return r;
+    }
+    if (t == NC_CHAR || n != 1) {
+        return NC_EINVAL;
+    }
+    switch (type) {
+        case NC_INT:
+            return nc_get_att_int(ncid, NC_GLOBAL, name, (int *)dst);
+        case NC_FLOAT:
+            return nc_get_att_float(ncid, NC_GLOBAL, name, (float *)dst);
+        case NC_INT64:
+            return nc_get_att_long(ncid, NC_GLOBAL, name, (long *)dst);
+        default:
+            return nc_get_att_double(ncid, NC_GLOBAL, name, (double *)dst);
+    }
+}
+
 // Read up to rayCount x gateCount elements of a variable, whatever the dimensions of the variable are
 static int getVariable(const int ncid, const int id, const size_t rayCount, const size_t gateCount, float *dst) {
     int k, r, n = 0;
@@ -48,10 +71,7 @@ static int put_global_text_att(const int ncid, const char *att, const char *text
 }
 
 static int get_global_float_att(const int ncid, const nc_type type, const char *att, void *dest) {
-    if (type == NC_FLOAT) {
-        return nc_get_att_float(ncid, NC_GLOBAL, att, (float *)dest);
-    }
-    return nc_get_att_double(ncid, NC_GLOBAL, att, (double *)dest);
+    return getAttribute(ncid, att, type == NC_FLOAT ? NC_FLOAT : NC_DOUBLE, dest);
 }
 
 int RKProductFileWriterNC(RKProduct *product, const char *filename) {
@@ -463,46 +483,46 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     getGlobalTextAttribute(product->header.waveformName, sizeof(product->header.waveformName), "Waveform", ncid);
     getGlobalTextAttribute(product->header.vcpDefinition, sizeof(product->header.vcpDefinition), "RadarKit-VCP-Definition", ncid);
 
-    r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &product->header.latitude);
+    r = getAttribute(ncid, "LatitudeDouble", NC_DOUBLE, &product->header.latitude);
     if (r != NC_NOERR) {
-        r = nc_get_att_float(ncid, NC_GLOBAL, "Latitude", &fv);
+        r = getAttribute(ncid, "Latitude", NC_FLOAT, &fv);
         if (r == NC_NOERR) {
             product->header.latitude = (double)fv;
         }
     }
-    r = nc_get_att(ncid, NC_GLOBAL, "LongitudeDouble", &product->header.longitude);
+    r = getAttribute(ncid, "LongitudeDouble", NC_DOUBLE, &product->header.longitude);
     if (r != NC_NOERR) {
-        r = nc_get_att_float(ncid, NC_GLOBAL, "Longitude", &fv);
+        r = getAttribute(ncid, "Longitude", NC_FLOAT, &fv);
         if (r == NC_NOERR) {
             product->header.longitude = (double)fv;
         }
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Heading", &product->header.heading);
+    r = getAttribute(ncid, "Heading", NC_FLOAT, &product->header.heading);
     if (r != NC_NOERR && showInfo) {
         RKLog("No radar heading found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Height", &product->header.radarHeight);
+    r = getAttribute(ncid, "Height", NC_FLOAT, &product->header.radarHeight);
     if (r != NC_NOERR && showInfo) {
         RKLog("No radar height found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Elevation", &product->header.sweepElevation);
+    r = getAttribute(ncid, "Elevation", NC_FLOAT, &product->header.sweepElevation);
     if (r != NC_NOERR && product->header.isPPI) {
         RKLog("Warning. No sweep elevation found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Azimuth", &product->header.sweepAzimuth);
+    r = getAttribute(ncid, "Azimuth", NC_FLOAT, &product->header.sweepAzimuth);
     if (r != NC_NOERR && product->header.isRHI) {
         RKLog("Warning. No sweep azimuth found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "GateSize", &product->header.gateSizeMeters);
+    r = getAttribute(ncid, "GateSize", NC_FLOAT, &product->header.gateSizeMeters);
     if (r != NC_NOERR) {
         product->header.gateSizeMeters = 0.0f;
     }
-    nc_get_att_long(ncid, NC_GLOBAL, "Time", &product->header.startTime);
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-value", &product->header.wavelength);
+    getAttribute(ncid, "Time", NC_INT64, &product->header.startTime);
+    r = getAttribute(ncid, "Wavelength-value", NC_FLOAT, &product->header.wavelength);
     if (r != NC_NOERR) {
         product->header.wavelength = 0.0f;
     }
-    r = nc_get_att_int(ncid, NC_GLOBAL, "PRF-value", &iv);
+    r = getAttribute(ncid, "PRF-value", NC_INT, &iv);
     if (r == NC_NOERR) {
         if (iv == 0) {
             RKLog("Warning. Recorded PRF = 0 Hz. Assuming 1000 Hz ...\n");
@@ -513,11 +533,11 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     } else {
         RKLog("Warning. No PRF information found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Nyquist_Vel-value", &fv);
+    r = getAttribute(ncid, "Nyquist_Vel-value", NC_FLOAT, &fv);
     if (r == NC_NOERR && product->header.wavelength == 0.0f && product->header.prt[0] > 0.0f) {
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "PulseWidth-value", &fv);
+    r = getAttribute(ncid, "PulseWidth-value", NC_FLOAT, &fv);
     getGlobalTextAttribute(stringValue, sizeof(stringValue), "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
         product->header.pw[0] = 1.0e-6f * fv;
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index f5925dc..64ea862 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -26,6 +26,27 @@ static void getGlobalTextAttribute(char *dst, const size_t size, const char *nam
     free(text);
 }
 
+// Read an attribute of one number as the requested type
+static int getAttribute(const int ncid, const char *name, const nc_type type, void *dst) {
+    size_t n = 0;
+    nc_type t;
+    int r = nc_inq_att(ncid, NC_GLOBAL, name, &t, &n);
+    if (r != NC_NOERR) {
+        return r;
+    }
+    if (t == NC_CHAR || n != 1) {
+        return NC_EINVAL;
+    }
+    switch (type) {
+        case NC_INT:
+            return nc_get_att_int(ncid, NC_GLOBAL, name, (int *)dst);
+        case NC_FLOAT:
+            return nc_get_att_float(ncid, NC_GLOBAL, name, (float *)dst);
+        default:
+            return nc_get_att_double(ncid, NC_GLOBAL, name, (double *)dst);
+    }
+}
+
 // Read up to rayCount x gateCount elements of a variable, whatever the dimensions of the variable are
 static int getVariable(const int ncid, const int id, const size_t rayCount, const size_t gateCount, float *dst) {
     int k, r, n = 0;
@@ -210,33 +231,33 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             getGlobalTextAttribute(typeName, sizeof(typeName), "TypeName", ncid);
             getGlobalTextAttribute(scanType, sizeof(scanType), "ScanType", ncid);
             getGlobalTextAttribute(sweep->header.desc.name, sizeof(sweep->header.desc.name), "radarName-value", ncid);
-            r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &sweep->header.desc.latitude);
+            r = getAttribute(ncid, "LatitudeDouble", NC_DOUBLE, &sweep->header.desc.latitude);
             if (r != NC_NOERR) {
-                r = nc_get_att_float(ncid, NC_GLOBAL, "Latitude", &fv);
+                r = getAttribute(ncid, "Latitude", NC_FLOAT, &fv);
                 if (r == NC_NOERR) {
                     sweep->header.desc.latitude = (double)fv;
                 }
             }
-            r = nc_get_att(ncid, NC_GLOBAL, "LongitudeDouble", &sweep->header.desc.longitude);
+            r = getAttribute(ncid, "LongitudeDouble", NC_DOUBLE, &sweep->header.desc.longitude);
             if (r != NC_NOERR) {
-                r = nc_get_att_float(ncid, NC_GLOBAL, "Longitude", &fv);
+                r = getAttribute(ncid, "Longitude", NC_FLOAT, &fv);
                 if (r == NC_NOERR) {
                     sweep->header.desc.longitude = (double)fv;
                 }
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Heading", &sweep->header.desc.heading);
+            r = getAttribute(ncid, "Heading", NC_FLOAT, &sweep->header.desc.heading);
             if (r != NC_NOERR) {
                 RKLog("No radar heading found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Height", &sweep->header.desc.radarHeight);
+            r = getAttribute(ncid, "Height", NC_FLOAT, &sweep->header.desc.radarHeight);
             if (r != NC_NOERR) {
                 RKLog("No radar height found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Elevation", &ray->header.sweepElevation);
+            r = getAttribute(ncid, "Elevation", NC_FLOAT, &ray->header.sweepElevation);
             if (r != NC_NOERR && sweep->header.config.startMarker & RKMarkerScanTypePPI) {
                 RKLog("Warning. No sweep elevation found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Azimuth", &ray->header.sweepAzimuth);
+            r = getAttribute(ncid, "Azimuth", NC_FLOAT, &ray->header.sweepAzimuth);
             if (r != NC_NOERR && sweep->header.config.startMarker & RKMarkerScanTypeRHI) {
                 RKLog("Warning. No sweep azimuth found.\n");
             }
@@ -247,7 +268,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 sweep->header.config.sweepAzimuth = ray->header.sweepAzimuth;
                 sweep->header.config.startMarker |= RKMarkerScanTypeRHI;
             }
-            r = nc_get_att_int(ncid, NC_GLOBAL, "PRF-value", &iv);
+            r = getAttribute(ncid, "PRF-value", NC_INT, &iv);
             if (r == NC_NOERR) {
                 if (iv == 0) {
                     RKLog("Warning. Recorded PRF = 0 Hz, assuming 1000 Hz.\n");
@@ -257,7 +278,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             } else {
                 RKLog("Warning. No PRF information found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Nyquist_Vel-value", &fv);
+            r = getAttribute(ncid, "Nyquist_Vel-value", NC_FLOAT, &fv);
             if (r == NC_NOERR) {
                 sweep->header.desc.wavelength = 4.0f * fv * (RKFloat)sweep->header.config.prt[0];
                 RKLog("Radar wavelength = %.4f m\n", sweep->header.desc.wavelength);
-- 
2.43.0


From 6dc5aa2b6322ebd5b5d741cf9534602abdebb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 063/183] fix: scan JSON texts with escapes, brackets in quotes
 and missing ends within their bounds

---
 source/RKFoundation.c |  9 ++++-----
 source/RKMisc.c       | 45 +++++++++++++++++++++++++------------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index badfcbb..66fa715 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1010,15 +1010,14 @@ size_t RKPrettyStringSizeEstimate(const char *source) {
     char *e = c + strlen(source);
     size_t s = (size_t)(e - c + 1);
     // Each color change uses up to 14 B for \033[38;5;123m (9-11 color dependent) and \033[m (3)
-    int k = 0;
+    // Every element may have three of them: key, equal sign and value, with spaces in between
+    int k = 1;
     do {
-        if (*c == ':') {
-            k += 3;
-        } else if (*c == ','  || *c == ']' || *c == '}') {
+        if (*c == ':' || *c == ',' || *c == '{' || *c == '[' || *c == ']' || *c == '}') {
             k++;
         }
     } while (c++ < e);
-    s += k * 14;
+    s += k * (3 * 14 + 5);
     return s;
 }
 
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 81281be..c142dcd 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -406,8 +406,7 @@ char *RKJSONSkipWhiteSpaces(const char *haystack) {
 char *RKJSONScanPassed(char *destination, const char *source, const char delimiter) {
     char *c = (char *)source;
     char *d = destination;
-    bool singleQuote = false;
-    bool doubleQuote = false;
+    char quote = '\0';
     bool slash = false;
     bool space = false;
     int curly = 0;
@@ -423,20 +422,18 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
 
     c = RKJSONSkipWhiteSpaces(c);
 
+    // Nothing but the end of the enclosing object or array
+    if (*c == '}' || *c == ')' || *c == ']') {
+        *d = '\0';
+        return RKJSONSkipWhiteSpaces(c + 1);
+    }
+
     while (c < end) {
-        switch (*c) {
-            case '\\':
-                slash = true;
-                break;
+        // Within quotes, only the closing quote has a meaning unless it is escaped
+        switch (quote ? '\0' : *c) {
             case '\'':
-                singleQuote = !singleQuote;
-                break;
             case '"':
-                if (!slash) {
-                    doubleQuote = !doubleQuote;
-                } else {
-                    slash = false;
-                }
+                quote = *c;
                 break;
             case '{':
                 curly++;
@@ -457,10 +454,19 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
                 square--;
                 break;
             default:
+                if (quote) {
+                    if (slash) {
+                        slash = false;
+                    } else if (*c == '\\') {
+                        slash = true;
+                    } else if (*c == quote) {
+                        quote = '\0';
+                    }
+                }
                 break;
         }
 
-        if (doubleQuote) {
+        if (quote) {
             *d++ = *c;
         } else {
             // Allow only one space character right after a color (:) or a comma (,)
@@ -492,19 +498,20 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
         }
         *(d + 1) = '\0';
         sprintf(str + k, "\033[m%s", k == 20 ? " " : "");
-        printf("%s '%d \"%d {%d (%d [%d \\%d s%d \033[48;5;238m%s\033[m \n",
-            str, singleQuote, doubleQuote, curly, round, square, slash, space, destination);
+        printf("%s q%d {%d (%d [%d \\%d s%d \033[48;5;238m%s\033[m \n",
+            str, quote, curly, round, square, slash, space, destination);
         #endif
 
         c++;
 
-        if (singleQuote == false &&
-            doubleQuote == false &&
+        if (quote == '\0' &&
             curly == 0 &&
             round == 0 &&
             square == 0 &&
             (*c == delimiter || *c == '}' || *c == ')' || *c == ']' || *c == '\0')) {
-            c++;
+            if (*c != '\0') {
+                c++;
+            }
             break;
         }
     }
-- 
2.43.0


From ba7033ffba414d41f7139ded5e16d1d134f444d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 064/183] fix: turn stream selections into text and back
 without loss

---
 source/RKFoundation.c | 62 +++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 66fa715..a3cfec5 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1568,31 +1568,31 @@ RKStream RKStreamFromString(const char * string) {
     while (j++ < strlen(string)) {
         switch (*c) {
             case '0':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
                 break;
             case '1':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
                 break;
             case '2':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
                 break;
             case '3':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
                 break;
             case '4':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
                 break;
             case '5':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
                 break;
             case '6':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
                 break;
             case '7':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
                 break;
             case '8':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
                 break;
             case 'x':
                 flag |= RKStreamStatusTerminalChange;
@@ -1709,20 +1709,36 @@ RKStream RKStreamFromString(const char * string) {
 int RKStringFromStream(char *string, RKStream stream) {
     int j = 0;
     // Exclusive part from RKStreamStatusMask
-    if (stream & RKStreamStatusPulses) {
-        j += sprintf(string + j, "1");
-    } else if (stream & RKStreamStatusRays) {
-        j += sprintf(string + j, "2");
-    } else if (stream & RKStreamStatusPositions) {
-        j += sprintf(string + j, "3");
-    } else if (stream & RKStreamStatusEngines) {
-        j += sprintf(string + j, "4");
-    } else if (stream & RKStreamStatusBuffers) {
-        j += sprintf(string + j, "5");
-    } else if (stream & RKStreamASCIIArtZ) {
-        j += sprintf(string + j, "6");
-    } else if (stream & RKStreamASCIIArtHealth) {
-        j += sprintf(string + j, "7");
+    switch (stream & RKStreamStatusMask) {
+        case RKStreamStatusPositions:
+            j += sprintf(string + j, "0");
+            break;
+        case RKStreamStatusPulses:
+            j += sprintf(string + j, "1");
+            break;
+        case RKStreamStatusRays:
+            j += sprintf(string + j, "2");
+            break;
+        case RKStreamStatusIngest:
+            j += sprintf(string + j, "3");
+            break;
+        case RKStreamStatusEngines:
+            j += sprintf(string + j, "4");
+            break;
+        case RKStreamStatusBuffers:
+            j += sprintf(string + j, "5");
+            break;
+        case RKStreamASCIIArtZ:
+            j += sprintf(string + j, "6");
+            break;
+        case RKStreamASCIIArtHealth:
+            j += sprintf(string + j, "7");
+            break;
+        case RKStreamASCIIArtVCP:
+            j += sprintf(string + j, "8");
+            break;
+        default:
+            break;
     }
     if (stream & RKStreamStatusProcessorStatus) { j += sprintf(string + j, "!"); }
     if (stream & RKStreamHealthInJSON)          { j += sprintf(string + j, "h"); }
-- 
2.43.0


From f24ed3a6595138e897eb170f8fc7139fceb18c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 065/183] fix: find the symbol and prefix of names without
 extension

---
 source/RKFoundation.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index a3cfec5..0d96d3c 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -413,7 +413,7 @@ bool RKGetSymbolFromFilename(const char *filename, char *symbol) {
     char *e = NULL;
     e = strrchr(filename, '.');
     if (e == NULL) {
-        e = (char *)filename + strlen(filename) - 1;
+        e = (char *)filename + strlen(filename);
     }
     #ifdef DEBUG_FINDSYMBOL
     printf("- %s\n", e);
@@ -440,11 +440,9 @@ bool RKGetPrefixFromFilename(const char *filename, char *prefix) {
     char *e = NULL;
     e = strstr(filename, ".nc");
     if (e == NULL) {
-        e = (char *)filename + strlen(filename) - 1;
+        e = (char *)filename + strlen(filename);
     }
-    do {
-        e--;
-    } while (*e != '-' && e > filename);
+    while (e > filename && *--e != '-');
     if (e <= filename) {
         RKLog("RKGetPrefixFromFilename() Unable to find filename prefix.\n");
         *prefix = '\0';
-- 
2.43.0


From fd13eaf6c7e98668c483f1cd8532f7238adf52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 066/183] fix: parse the texts and the maximum of a product
 description

---
 source/RKFoundation.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 0d96d3c..cd6e8b0 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2320,6 +2320,7 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     // Product name is mandatory
     keyString = RKGetValueOfKey(inputString, "name");
     if (keyString) {
+        RKUnquote(keyString);
         strncpy(desc->name, keyString, RKNameLength - 1);
     } else {
         return RKResultIncompleteProductDescription;
@@ -2327,7 +2328,8 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     // Product symbol is mandatory
     keyString = RKGetValueOfKey(inputString, "symbol");
     if (keyString) {
-        strncpy(desc->symbol, keyString, 7);
+        RKUnquote(keyString);
+        strncpy(desc->symbol, keyString, RKMaximumSymbolLength - 1);
     } else {
         return RKResultIncompleteProductDescription;
     }
@@ -2365,11 +2367,13 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     // Optional values
     keyString = RKGetValueOfKey(inputString, "unit");
     if (keyString) {
-        strncpy(desc->unit, keyString, 5);
+        RKUnquote(keyString);
+        strncpy(desc->unit, keyString, RKNameLength - 1);
     }
     keyString = RKGetValueOfKey(inputString, "colormap");
     if (keyString) {
-        strncpy(desc->colormap, keyString, 9);
+        RKUnquote(keyString);
+        strncpy(desc->colormap, keyString, RKNameLength - 1);
     }
     keyString = RKGetValueOfKey(inputString, "minimumValue");
     if (keyString) {
@@ -2377,7 +2381,7 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     }
     keyString = RKGetValueOfKey(inputString, "maximumValue");
     if (keyString) {
-        desc->mininimumValue = (RKFloat)atof(keyString);
+        desc->maximumValue = (RKFloat)atof(keyString);
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From dba9857ff2d6a7f064d8bc596587358c3941bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 067/183] fix: merge columns whose last lines have no end of
 line

---
 source/RKMisc.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index c142dcd..1d15b78 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1611,27 +1611,36 @@ int RKMergeColumns(char *text, const char *left, const char *right, const int in
     memset(format, ' ', indent);
     sprintf(format + indent, "%%s");
     //printf("%s--\n", right);
+    *text = '\0';
+    if (*ls == '\0') {
+        ls = NULL;
+    }
+    if (*rs == '\0') {
+        rs = NULL;
+    }
     while (ls != NULL || rs != NULL) {
-        if (ls != NULL && (le = strchr(ls, '\n')) != NULL) {
-            *le = '\0';
+        if (ls != NULL) {
+            // The last line may come without the end of line
+            if ((le = strchr(ls, '\n')) != NULL) {
+                *le = '\0';
+            }
             plain = RKStripEscapeSequence(ls);
             n = (int)strlen(plain);
             //printf("%s (%d) -> %s (%d)\n", ls, (int)(le - ls), plain, n);
             m += sprintf(text + m, format, ls);
             memset(text + m, ' ', MAX(0, u - n));
             m += MAX(0, u - n);
-            ls = le + 1;
-            if (*ls == '\0') {
-                ls = NULL;
-            }
+            ls = le == NULL || *(le + 1) == '\0' ? NULL : le + 1;
         } else {
             if (rs != NULL) {
                 memset(text + m, ' ', u + indent);
                 m += u + indent;
             }
         }
-        if (rs != NULL && (re = strchr(rs, '\n')) != NULL) {
-            *re = '\0';
+        if (rs != NULL) {
+            if ((re = strchr(rs, '\n')) != NULL) {
+                *re = '\0';
+            }
             plain = RKStripEscapeSequence(rs);
             n = (int)strlen(plain);
             w = MAX(w, n);
@@ -1639,10 +1648,7 @@ int RKMergeColumns(char *text, const char *left, const char *right, const int in
             m += sprintf(text + m, "%s", rs);
             memset(text + m, ' ', MAX(0, v - n));
             m += MAX(0, v - n);
-            rs = re + 1;
-            if (*rs == '\0') {
-                rs = NULL;
-            }
+            rs = re == NULL || *(re + 1) == '\0' ? NULL : re + 1;
         } else {
             memset(text + m, ' ', v);
             m += v;
-- 
2.43.0


From 76f66e60abea09facd01728b5b197f61fe3e3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 068/183] fix: keep concurrent conversions of times and
 variables to text apart

---
 source/RKFoundation.c |  5 ++---
 source/RKMisc.c       | 19 +++++++++++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index cd6e8b0..db6c4a6 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -942,12 +942,11 @@ char *RKVariableInString(const char *name, const void *value, RKValueType type)
         return NULL;
     }
 
-    char *string = stringBuffer[ibuf];
-    memset(string, 0, RKNameLength);
-
     pthread_mutex_lock(&lock);
+    char *string = stringBuffer[ibuf];
     ibuf = ibuf == 15 ? 0 : ibuf + 1;
     pthread_mutex_unlock(&lock);
+    memset(string, 0, RKNameLength);
 
     char *c = RKStringFromValue(value, type);
     bool b = type == RKValueTypeBool && *((bool *)value);
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 1d15b78..3b9c8df 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -778,29 +778,36 @@ char *RKTimevalToString(const struct timeval time, int format) {
 
     char formatString[8];
     int n = 0, o = 0;
+    struct tm tm;
+
+    // Times that cannot be represented
+    if (localtime_r(&time.tv_sec, &tm) == NULL) {
+        string[0] = '\0';
+        return string;
+    }
 
     if (format >= 1080) {
-        strftime(string, 20, "%Y/%m/%d %H:%M:%S", localtime(&time.tv_sec));
+        strftime(string, 20, "%Y/%m/%d %H:%M:%S", &tm);
         n = CLAMP(format - 1080, 0, 6);
         o = 19;
     } else if (format >= 860) {
-        strftime(string, 16, "%Y%m%d-%H%M%S", localtime(&time.tv_sec));
+        strftime(string, 16, "%Y%m%d-%H%M%S", &tm);
         n = CLAMP(format - 860, 0, 6);
         o = 15;
     } else if (format >= 800) {
-        strftime(string, 9, "%Y%m%d", localtime(&time.tv_sec));
+        strftime(string, 9, "%Y%m%d", &tm);
         n = CLAMP(format - 800, 0, 6);
         o = 8;
     } else if (format >= 80) {
-        strftime(string, 9, "%H:%M:%S", localtime(&time.tv_sec));
+        strftime(string, 9, "%H:%M:%S", &tm);
         n = CLAMP(format - 80, 0, 6);
         o = 8;
     } else if (format >= 60) {
-        strftime(string, 7, "%H%M%S", localtime(&time.tv_sec));
+        strftime(string, 7, "%H%M%S", &tm);
         n = CLAMP(format - 60, 0, 6);
         o = 6;
     } else {
-        strftime(string, 16, "%Y%m%d-%H%M%S", localtime(&time.tv_sec));
+        strftime(string, 16, "%Y%m%d-%H%M%S", &tm);
     }
     if (n > 0) {
         snprintf(formatString, 7, ".%%0%du", n);
-- 
2.43.0


From ed5a3b053bf9d5aa40fe5a96645623febfebebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 069/183] fix: find the value of a key when an earlier value
 has the text of the key

---
 source/RKMisc.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 3b9c8df..112b8e2 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -187,6 +187,23 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     return oe;
 }
 
+// Find a quoted key, i.e., one that is followed by a colon, not a quoted value of the same text
+static char *findQuotedKey(const char *string, const char *quotedKey) {
+    const char *e;
+    const char *c = strcasestr(string, quotedKey);
+    while (c != NULL) {
+        e = c + strlen(quotedKey);
+        while (*e == ' ' || *e == '\r' || *e == '\n') {
+            e++;
+        }
+        if (*e == ':') {
+            break;
+        }
+        c = strcasestr(c + 1, quotedKey);
+    }
+    return (char *)c;
+}
+
 // LIMITATIONS:
 //  - Not a generic function, many assumptions
 //  - Static array variable limited to 8 elements
@@ -211,10 +228,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
     size_t len;
     char quotedKey[256];
     snprintf(quotedKey, sizeof(quotedKey), "\"%s\"", key);
-    char *keyPosition = strcasestr(string, quotedKey);
+    char *keyPosition = findQuotedKey(string, quotedKey);
     if (keyPosition == NULL) {
         snprintf(quotedKey, sizeof(quotedKey), "'%s'", key);
-        keyPosition = strcasestr(string, quotedKey);
+        keyPosition = findQuotedKey(string, quotedKey);
     }
 
     if (keyPosition != NULL) {
-- 
2.43.0


From b7548de6807da4880b294df34a0170c8896baabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 070/183] fix: find the end of a numeric array behind its
 beginning

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index db6c4a6..fa90d42 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2071,7 +2071,7 @@ size_t RKParseNumericArray(void *valueStorage, RKValueType type, const size_t si
     if ((s = strchr(valueString, '[')) == NULL) {
         return RKParseCommaDelimitedValues(valueStorage, type, size, valueString);
     }
-    if ((e = strchr(valueString, ']')) == NULL) {
+    if ((e = strchr(s, ']')) == NULL) {
         fprintf(stderr, "Expected a close bracket for an array that begins with '['.\n");
         return 0;
     }
-- 
2.43.0


From 2e4f637341cb26b85dc35eef7b0e47489cf0f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 071/183] fix: keep the consolidated health within its bounds

---
 source/RKHealthEngine.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index dbfc417..a869b78 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -164,6 +164,13 @@ static void *healthConsolidator(void *_in) {
         i = sprintf(string, "{");
         for (j = 0; j < desc->healthNodeCount; j++) {
             n = indices[j];
+            // Leave some room for the overrides and the log time
+            if (i + strlen(engine->healthNodes[j].healths[n].string) > RKMaximumStringLength - 512) {
+                if (engine->verbose) {
+                    RKLog("%s Warning. No room for the health of node %d.\n", engine->name, j);
+                }
+                continue;
+            }
             if (engine->healthNodes[j].active && strlen(engine->healthNodes[j].healths[n].string) > 6) {   // {"k":0} is at least 7 chars
                 i += sprintf(string + i, "%s", engine->healthNodes[j].healths[n].string + 1);              // Ignore the first "{"
                 i -= RKStripTail(string);                                                                  // Strip away white spaces
-- 
2.43.0


From 2d2a91392da6e83aa141fa04a6f854d9092c7417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 072/183] fix: begin a health log file every minute, end it
 when the record is off

---
 source/RKHealthLogger.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index 88b113f..6826d98 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -27,8 +27,8 @@ static void *healthLogger(void *in) {
     char filename[RKMaximumPathLength] = "";
 
 	time_t unixTime;
-	struct tm *timeStruct;
-	int min = -1;
+	struct tm timeStruct;
+	time_t minute = -1;
 
 	// Update the engine state
     engine->state |= RKEngineStateWantActive;
@@ -85,11 +85,12 @@ static void *healthLogger(void *in) {
         } else {
             unixTime = (time_t)atol(keyValue);
         }
-        timeStruct = gmtime(&unixTime);
-        if (min != timeStruct->tm_min) {
-            min = timeStruct->tm_min;
-            if (engine->record && engine->fid) {
+        if (minute != unixTime / 60) {
+            minute = unixTime / 60;
+            gmtime_r(&unixTime, &timeStruct);
+            if (engine->fid) {
                 fclose(engine->fid);
+                engine->fid = NULL;
                 if (engine->verbose) {
                     RKLog("%s %sRecorded%s %s\n",
                           engine->name,
@@ -111,9 +112,9 @@ static void *healthLogger(void *in) {
                 }
             }
             i = sprintf(filename, "%s%s%s/", desc->dataPath, desc->dataPath[0] == '\0' ? "" : "/", RKDataFolderHealth);
-            i += strftime(filename + i, 10, "%Y%m%d", gmtime(&unixTime));
+            i += strftime(filename + i, 10, "%Y%m%d", &timeStruct);
             i += sprintf(filename + i, "/%s-", desc->filePrefix);
-            strftime(filename + i, 22, "%Y%m%d-%H%M%S.json", gmtime(&unixTime));
+            strftime(filename + i, 22, "%Y%m%d-%H%M%S.json", &timeStruct);
             if (engine->record) {
                 RKPreparePath(filename);
                 engine->fid = fopen(filename, "w");
-- 
2.43.0


From 8b7d6d75377ecffe5e69ba13d095c8881cf05783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 073/183] fix: request no more health nodes than there are

---
 source/RKRadar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 61f0338..b677615 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2773,9 +2773,9 @@ RKConfig *RKGetLatestConfig(RKRadar *radar) {
 //
 RKHealthNode RKRequestHealthNode(RKRadar *radar) {
     RKHealthNode node = RKHealthNodeUser1 + radar->healthNodeCount;
-    if (node == RKHealthNodeCount) {
+    if (node >= RKHealthNodeCount) {
         RKLog("Error. No more health node available.\n");
-        node = (RKHealthNode)-1;
+        return (RKHealthNode)-1;
     }
     radar->healthNodeCount++;
     return node;
-- 
2.43.0


From c39c6dd1d12948252b411cf043637626b1518e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 074/183] fix: take a health slot as vacant until its reading
 is complete

---
 source/RKRadar.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index b677615..32bf036 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2798,6 +2798,8 @@ RKHealth *RKGetVacantHealth(RKRadar *radar, const RKHealthNode node) {
     radar->healthNodes[node].active = true;
     uint32_t index = radar->healthNodes[node].index;
     RKHealth *health = &radar->healthNodes[node].healths[index];
+    // The slot may have been filled with an old reading while this node was silent
+    health->flag = RKHealthFlagVacant;
     if (radar->state & RKRadarStateLive) {
         health->i += radar->desc.healthBufferDepth;
         index = RKNextModuloS(index, radar->desc.healthBufferDepth);
-- 
2.43.0


From ceae98a1b33ded5b23e914b223bfcb02cbb3de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 075/183] fix: show health overviews of any number of states,
 and states without value

---
 source/RKRadar.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 32bf036..021b939 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3579,9 +3579,9 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
     char key[RKNameLength];
     char value[RKStatusStringLength];
     char string[RKMaximumStringLength];
-    char dots[RKMaximumStringLength], labels[RKMaximumStringLength];
+    char dots[4 * RKMaximumStringLength] = "", labels[4 * RKMaximumStringLength] = "";
     char prefix[RKNameLength], posfix[RKNameLength];
-    char state[4];
+    char state[RKStatusStringLength];
     char symbol[] = "o";
     RKStatusEnum u;
     bool isLabel;
@@ -3600,10 +3600,16 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
     }
     // Collect status indicators: key-value pairs that have a dictionary as value
     while (d != NULL) {
+        *value = '\0';
         d = RKGetNextKeyValue(d, key, value);
         //printf("key '%s'   value '%s'  c = %c\n", key, value, c == NULL ? 0 : *c);
         if (*value == '{') {
             e = RKGetNextKeyValue(value + 1, NULL, value);
+            if (e == NULL) {
+                // No state is given
+                continue;
+            }
+            *state = '\0';
             RKGetNextKeyValue(e, NULL, state);
             u = atoi(state);
             isLabel = strcasecmp("true", value) && strcasecmp("false", value);
@@ -3679,7 +3685,7 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
     #endif
 
     if (flag & RKTextPreferencesDrawBackground) {
-        char temp[8196];
+        char temp[8 * RKMaximumStringLength];
         int w = RKMergeColumns(temp, dots, labels, 4);
         // Another indent at the end and the two border chars
         w += 4 + 2;
-- 
2.43.0


From 2d6e7aceeaddade44a6ad8e9f5112790fc5848f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 076/183] fix: make the products of the moments that a sweep
 has

---
 source/RKSweepEngine.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 8b8a43a..49c18c6 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -145,7 +145,7 @@ static void *sweepManager(void *in) {
     char *filelist = engine->scratchSpaces[index].filelist;
     char *summary = engine->scratchSpaces[index].summary;
 
-    int productCount = __builtin_popcount(sweep->header.baseProductList & engine->baseProductList);
+    const int productCount = __builtin_popcount(engine->baseProductList);
 
     // Base products
     size_t productMemoryUsage = 0;
@@ -156,6 +156,11 @@ static void *sweepManager(void *in) {
                 RKLog("Error. Unable to get a product slot   p = %d   pid = %d.\n", p, engine->baseMomentProductIds[p]);
                 continue;
             }
+            if (!(product->desc.baseProductList & sweep->header.baseProductList)) {
+                // The sweep does not have this one
+                RKSweepEngineSetProductComplete(engine, sweep, product);
+                continue;
+            }
             RKProductInitFromSweep(product, sweep);
             RKSweepEngineSetProductComplete(engine, sweep, product);
             productMemoryUsage += product->totalBufferSize;
-- 
2.43.0


From 952dbfd3363ff73efce985e2c01bad760f4df7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 077/183] fix: describe a sweep by the configuration of its own
 rays

---
 source/RKSweepEngine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 49c18c6..11336f8 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -929,6 +929,7 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     S = rays[k];
     T = rays[k + 1];
     E = rays[k + n - 1];
+    config = &engine->configBuffer[T->header.configIndex];
     if (S->header.configIndex != T->header.configIndex) {
         RKLog("%s Info. Inconsistent configIndex S -> %d vs T -> %d\n", engine->name, S->header.configIndex, T->header.configIndex);
     }
@@ -949,7 +950,7 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     sweep->header.endTime = (time_t)E->header.endTime.tv_sec;
     sweep->header.baseProductList = overallBaseProductList;
     sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
+    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI;
     if (!sweep->header.isPPI && !sweep->header.isRHI) {
         config = &engine->configBuffer[T->header.configIndex];
         sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-- 
2.43.0


From 65f6d0ceca75c907be026cf83017f323438c531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 078/183] fix: describe no more products than the buffer of the
 sweep engine holds

---
 source/RKSweepEngine.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 11336f8..4e9d7d8 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -731,15 +731,16 @@ char *RKSweepEngineLatestSummary(RKSweepEngine *engine) {
 RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc desc) {
     int i = 0;
     RKProductId productId = 42;
-    while (engine->productBuffer[i].flag & RKProductStatusActive && i < RKMaximumProductCount) {
+    pthread_mutex_lock(&engine->productMutex);
+    while (i < engine->productBufferDepth && engine->productBuffer[i].flag & RKProductStatusActive) {
         productId++;
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
+        pthread_mutex_unlock(&engine->productMutex);
         RKLog("%s Error. Unable to add anymore user products.\n", engine->name);
         return 0;
     }
-    pthread_mutex_lock(&engine->productMutex);
     engine->productBuffer[i].i = 0;
     engine->productBuffer[i].pid = productId;
     engine->productBuffer[i].desc = desc;
@@ -756,13 +757,13 @@ RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc de
 
 int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth) {
         if (engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to locate productId = 0x%04x.\n", engine->name, productId);
         return RKResultFailedToFindProductId;
     }
@@ -783,13 +784,13 @@ int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId)
 
 RKProduct *RKSweepEngineGetVacantProduct(RKSweepEngine *engine, RKSweep *sweep, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth) {
         if (engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to locate productId = %d.\n", engine->name, productId);
         return NULL;
     }
-- 
2.43.0


From bd0069487c9e97c854bec441f820125167bb6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 079/183] fix: count the sweeps in progress once, join the ray
 releaser

---
 source/RKSweepEngine.c | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 4e9d7d8..d487f81 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -103,7 +103,7 @@ static void *sweepManager(void *in) {
     RKSweep *sweep = RKSweepCollect(engine, index);
     if (sweep == NULL) {
         if (engine->verbose > 1) {
-            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", index);
+            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", engine->name, index);
         }
         pthread_mutex_lock(&engine->productMutex);
         engine->business--;
@@ -176,12 +176,6 @@ static void *sweepManager(void *in) {
         return NULL;
     }
 
-    if (!(engine->state & RKEngineStateWantActive)) {
-        pthread_mutex_lock(&engine->productMutex);
-        engine->business--;
-        pthread_mutex_unlock(&engine->productMutex);
-    }
-
     // Mark the state
     engine->state |= RKEngineStateWritingFile;
 
@@ -338,6 +332,8 @@ static void *rayGatherer(void *in) {
     pthread_t tidSweepManager = (pthread_t)0;
     pthread_t tidRayReleaser = (pthread_t)0;
 
+    bool open = false;   // A sweep has begun, business counts it
+
     RKRay *ray;
     RKRay **rays = engine->scratchSpaces[engine->scratchSpaceIndex].rays;
 
@@ -437,6 +433,16 @@ static void *rayGatherer(void *in) {
             ray->header.n = is;
             rays[n++] = ray;
             engine->scratchSpaces[engine->scratchSpaceIndex].rayCount = n;
+            // The sweep manager counts down once. The end may come without a beginning, or be the next beginning
+            pthread_mutex_lock(&engine->productMutex);
+            if (!open) {
+                engine->business++;
+            }
+            open = RKGetRayFromBuffer(engine->rayBuffer, j)->header.marker & RKMarkerSweepBegin;
+            if (open) {
+                engine->business++;
+            }
+            pthread_mutex_unlock(&engine->productMutex);
             if (engine->verbose > 1) {
                 RKLog("%s Info. RKMarkerSweepEnd   is = %d   j = %d   n = %d\n", engine->name, is, j, n);
             }
@@ -472,9 +478,12 @@ static void *rayGatherer(void *in) {
             }
             rays = engine->scratchSpaces[engine->scratchSpaceIndex].rays;
         } else if (ray->header.marker & RKMarkerSweepBegin) {
-            pthread_mutex_lock(&engine->productMutex);
-            engine->business++;
-            pthread_mutex_unlock(&engine->productMutex);
+            if (!open) {
+                open = true;
+                pthread_mutex_lock(&engine->productMutex);
+                engine->business++;
+                pthread_mutex_unlock(&engine->productMutex);
+            }
             if (engine->verbose > 1) {
                 RKLog("%s Info. RKMarkerSweepBegin   is = %d   j = %d\n", engine->name, is, j);
             }
@@ -538,6 +547,15 @@ static void *rayGatherer(void *in) {
         pthread_join(tidSweepManager, NULL);
         tidSweepManager = (pthread_t)0;
     }
+    if (tidRayReleaser) {
+        pthread_join(tidRayReleaser, NULL);
+        tidRayReleaser = (pthread_t)0;
+    }
+    if (open) {
+        pthread_mutex_lock(&engine->productMutex);
+        engine->business--;
+        pthread_mutex_unlock(&engine->productMutex);
+    }
     for (p = 0; p < productCount; p++) {
         RKSweepEngineUndescribeProduct(engine, engine->baseMomentProductIds[p]);
     }
-- 
2.43.0


From b996cee013f6e5cf91634d35d06683d2d85ddf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 080/183] fix: keep the times of concurrent file names and log
 lines apart

---
 source/RKFoundation.c      | 2 +-
 source/RKMisc.c            | 4 +++-
 source/RKRawDataRecorder.c | 6 ++++--
 source/RKSweepEngine.c     | 6 ++++--
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index fa90d42..443c0c6 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -140,7 +140,7 @@ int RKLog(const char *whatever, ...) {
 
     // Get the time
     gettimeofday(&utc, NULL);
-    memcpy(&tm, gmtime(&utc.tv_sec), sizeof(struct tm));
+    gmtime_r(&utc.tv_sec, &tm);
 
     // Construct the string
     va_start(args, whatever);
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 112b8e2..c7f5dee 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -743,7 +743,9 @@ char *RKNow(void) {
     // Here is a nice reference: http://www.cplusplus.com/ref/ctime/time.html
     //
     time(&utc);
-    strftime(timestr, 32, "%Y/%m/%d %T", localtime(&utc));
+    struct tm tm;
+    localtime_r(&utc, &tm);
+    strftime(timestr, 32, "%Y/%m/%d %T", &tm);
     return timestr;
 }
 
diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 561e82e..b791fbf 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -176,10 +176,12 @@ static void *pulseRecorder(void *in) {
 
             // New file
             time_t startTime = pulse->header.time.tv_sec;
+            struct tm startTimeStruct;
+            gmtime_r(&startTime, &startTimeStruct);
             i = snprintf(filename, RKMaximumPathLength - RKMaximumPrefixLength - 30, "%s%s%s/", engine->radarDescription->dataPath, engine->radarDescription->dataPath[0] == '\0' ? "" : "/", RKDataFolderIQ);
-            i += strftime(filename + i, 9, "%Y%m%d", gmtime(&startTime));
+            i += strftime(filename + i, 9, "%Y%m%d", &startTimeStruct);
             i += snprintf(filename + i, RKMaximumPrefixLength + 2, "/%s-", engine->radarDescription->filePrefix);
-            i += strftime(filename + i, 16, "%Y%m%d-%H%M%S", gmtime(&startTime));
+            i += strftime(filename + i, 16, "%Y%m%d-%H%M%S", &startTimeStruct);
             i += snprintf(filename + i, 5, ".%03d", (int)pulse->header.time.tv_usec / 1000);
             if (engine->rawDataType == RKRawDataTypeFromTransceiver) {
                 sprintf(filename + i, ".rkr");
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index d487f81..d2c9018 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -982,11 +982,13 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     memcpy(&sweep->header.desc, engine->radarDescription, sizeof(RKRadarDesc));
     memcpy(&sweep->header.config, config, sizeof(RKConfig));
     memcpy(sweep->rays, rays + k, n * sizeof(RKRay *));
+    struct tm startTime;
+    gmtime_r(&sweep->header.startTime, &startTime);
     // Make a suggested filename as .../[DATA_PATH]/20170119/PX10k-20170119-012345-E1.0 (no symbol and extension)
     k = sprintf(sweep->header.filename, "%s%s%s/", engine->radarDescription->dataPath, engine->radarDescription->dataPath[0] == '\0' ? "" : "/", RKDataFolderMoment);
-    k += strftime(sweep->header.filename + k, 10, "%Y%m%d", gmtime(&sweep->header.startTime));
+    k += strftime(sweep->header.filename + k, 10, "%Y%m%d", &startTime);
     k += sprintf(sweep->header.filename + k, "/%s-", engine->radarDescription->filePrefix);
-    k += strftime(sweep->header.filename + k, 16, "%Y%m%d-%H%M%S", gmtime(&sweep->header.startTime));
+    k += strftime(sweep->header.filename + k, 16, "%Y%m%d-%H%M%S", &startTime);
     if (sweep->header.isPPI) {
         k += sprintf(sweep->header.filename + k, "-E%.1f", sweep->header.config.sweepElevation);
     } else if (sweep->header.isRHI) {
-- 
2.43.0


From 1464a0e9f5575269208a23067f96be5ec514ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 081/183] fix: give back the rays of an older sweep only while
 they are in the buffer

---
 headers/RadarKit/RKSweepEngine.h |  1 +
 source/RKSweepEngine.c           | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/headers/RadarKit/RKSweepEngine.h b/headers/RadarKit/RKSweepEngine.h
index ccf4d29..d563edf 100644
--- a/headers/RadarKit/RKSweepEngine.h
+++ b/headers/RadarKit/RKSweepEngine.h
@@ -24,6 +24,7 @@ typedef struct rk_sweep_scratch {
     char                             summary[RKMaximumStringLength];
     RKRay                            *rays[RKMaximumRaysPerSweep];
     uint32_t                         rayCount;
+    uint64_t                         tic;                                        // Engine tic when the rays were gathered
 } RKSweepScratchSpace;
 
 typedef struct rk_sweep_engine RKSweepEngine;
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index d2c9018..9a96a94 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -65,10 +65,12 @@ static void *rayReleaser(void *in) {
     if (engine->verbose > 1) {
         RKLog("%s rayReleaser()  index = %d   count = %d\n", engine->name, index, space->rayCount);
     }
-    // Set them free
-    for (i = 0; i < space->rayCount; i++) {
-        ray = space->rays[i];
-        ray->header.s = RKRayStatusVacant;
+    // Set them free, unless the buffer has come around, i.e., they are newer rays by now
+    if (engine->tic - space->tic + space->rayCount < engine->radarDescription->rayBufferDepth) {
+        for (i = 0; i < space->rayCount; i++) {
+            ray = space->rays[i];
+            ray->header.s = RKRayStatusVacant;
+        }
     }
     space->rayCount = 0;
 
@@ -433,6 +435,7 @@ static void *rayGatherer(void *in) {
             ray->header.n = is;
             rays[n++] = ray;
             engine->scratchSpaces[engine->scratchSpaceIndex].rayCount = n;
+            engine->scratchSpaces[engine->scratchSpaceIndex].tic = engine->tic;
             // The sweep manager counts down once. The end may come without a beginning, or be the next beginning
             pthread_mutex_lock(&engine->productMutex);
             if (!open) {
-- 
2.43.0


From 2764e81313afde73f9300420e638ef6a93b2e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 082/183] fix: handle no files when a sweep has none

---
 source/RKSweepEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 9a96a94..3d0deb5 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -284,7 +284,7 @@ static void *sweepManager(void *in) {
         RKLog("%s %s\n", engine->name, summary);
     }
 
-    if (record && engine->hasFileHandlingScript) {
+    if (record && summarySize && engine->hasFileHandlingScript) {
         if (engine->verbose > 1) {
             RKLog("%s CMD: %s\n", engine->name, filelist);
         }
-- 
2.43.0


From 4c65a2a5815262e9b2fb2efe04009e29c5355c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 083/183] fix: keep clear of the rays that the ray producer is
 about to fill

---
 source/RKSweepEngine.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 3d0deb5..befc9d8 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -65,8 +65,9 @@ static void *rayReleaser(void *in) {
     if (engine->verbose > 1) {
         RKLog("%s rayReleaser()  index = %d   count = %d\n", engine->name, index, space->rayCount);
     }
-    // Set them free, unless the buffer has come around, i.e., they are newer rays by now
-    if (engine->tic - space->tic + space->rayCount < engine->radarDescription->rayBufferDepth) {
+    // Set them free, unless the buffer is about to come around, i.e., they are newer rays by now
+    const uint32_t depth = engine->radarDescription->rayBufferDepth;
+    if (engine->tic - space->tic + space->rayCount < depth - depth / 8) {
         for (i = 0; i < space->rayCount; i++) {
             ray = space->rays[i];
             ray->header.s = RKRayStatusVacant;
-- 
2.43.0


From 6dff942a33c219af1bcb236333b8b9be4b5271d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 084/183] fix: copy only as many sample arrays as a waveform
 holds

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 8d0a515..95876e7 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -111,7 +111,7 @@ RKWaveform *RKWaveformInitFromSampleArrays(const RKComplex **samples, const uint
     }
 
     // Everything simple, no TFM business
-    for (int j = 0; j < count; j++) {
+    for (int j = 0; j < waveform->count; j++) {
         waveform->filterCounts[j] = 1;
         waveform->filterAnchors[j][0].name = 0;
         waveform->filterAnchors[j][0].origin = 0;
-- 
2.43.0


From d48d1eaae16e8e3ba224c5bcd105ad7a3544b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 085/183] fix: centre the hops of a waveform around its carrier
 frequency

---
 source/RKWaveform.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 95876e7..b531558 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -510,7 +510,7 @@ void RKWaveformFrequencyHops(RKWaveform *waveform, const double fs, const double
     // omega = discrete frequency
     // beta = argument for exp() / cos()-sin() pair
     for (j = 0, k = 0; k < waveform->count; k++) {
-        f = delta * (double)j - 0.5 * bandwidth + fc;
+        f = delta * ((double)j - 0.5 * (double)(count - 1)) + fc;
         omega = 2.0 * M_PI * f / fs;
         theta = omega * (double)(waveform->depth / 2);
         waveform->filterCounts[k] = 1;
@@ -558,7 +558,7 @@ void RKWaveformFrequencyHoppingChirp(RKWaveform *waveform, const double fs, cons
     k = sprintf(waveform->name, "k%02.0f%02d", 1.0e-6 * bandwidth, count);
     const double pulsewidth = waveform->depth / fs;
     if (pulsewidth < 1.0e-6) {
-        sprintf(waveform->name + k, ".%.1f", round(10.0e6 * pulsewidth));
+        sprintf(waveform->name + k, ".%.0f", round(10.0e6 * pulsewidth));
     } else if (fmod(1.0e6 * pulsewidth, 1.0) < 0.1) {
         sprintf(waveform->name + k, "%02.0f", 1.0e6 * pulsewidth);
     } else {
@@ -573,7 +573,6 @@ void RKWaveformFrequencyHoppingChirp(RKWaveform *waveform, const double fs, cons
     // Test with BW 20-MHz, count = 5 ==> SBW = 4-MHz for each hop
     // Frequency span: [-10, -6], [-6, -2], [-2, +2], [+2, +6], [+6, +10]
     // Hop Identifier:     (0)       (1)       (2)       (3)       (4)
-    // Hop Anchor = i:    (-2)      (-1)       (0)      (+1)      (+2)
     // Some variables:
     // fl = lower bound frequency of the subband
     // fh = upper bound frequency of the subband
@@ -581,9 +580,8 @@ void RKWaveformFrequencyHoppingChirp(RKWaveform *waveform, const double fs, cons
     // kappa = rate of frequency change
     // beta = argument for exp() / cos()-sin() pair
     for (j = 0, k = 0; k < waveform->count; k++) {
-        i = j - count / 2;
-        fl = ((double)i - 0.5) * sub + fc;
-        fu = ((double)i + 0.5) * sub + fc;
+        fl = (double)j * sub - 0.5 * bandwidth + fc;
+        fu = (double)(j + 1) * sub - 0.5 * bandwidth + fc;
         omega = 2.0 * M_PI * fl / fs;
         kappa = 2.0 * M_PI * sub / pulsewidth / (fs * fs);
         theta = omega * (double)(waveform->depth / 2) + 0.5 * kappa * pow((double)(waveform->depth / 2), 2.0);
-- 
2.43.0


From ed89bb96e6f42e2253a2406642eea6bddf3afcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 086/183] fix: pass the parameters of a window as numbers of
 the type that it reads

---
 source/RKWaveform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index b531558..ce12e19 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -253,7 +253,7 @@ RKWaveform *RKWaveformInitAsTimeFrequencyMultiplexing(const double fs, const dou
     // Say bandwidth = 4 MHz. Going atmost from -2 to 0 MHz, fc @ -1 MHz
     //RKWaveform *fill = RKWaveformInitAsFrequencyHops(fs, fc - 0.25 * bandwidth, 2.0e-6, 0.0, 1);
     RKWaveform *fill = RKWaveformInitAsSingleTone(fs, fc - 0.25 * bandwidth, 2.0e-6);
-    RKWaveformApplyWindow(fill, RKWindowTypeHamming);
+    RKWaveformApplyWindow(fill, RKWindowTypeHamming, 0.0);
     // Expand waveform by the fill pulse
     RKWaveformAppendWaveform(waveform, fill, 10);
     RKWaveformFree(fill);
@@ -355,7 +355,7 @@ RKResult RKWaveformApplyWindow(RKWaveform *waveform, const RKWindowType type, ..
     parameter = va_arg(args, double);
     va_end(args);
 
-    RKWindowMake(window, type, waveform->depth, parameter, 0);
+    RKWindowMake(window, type, waveform->depth, parameter, 0.0);
 
     g = 0.0;
     w = window;
-- 
2.43.0


From 91dd0c82b6e431f254e284264c6c250e90740754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 087/183] fix: update the gains of a waveform when a window is
 applied

---
 source/RKWaveform.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index ce12e19..0854405 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -382,7 +382,8 @@ RKResult RKWaveformApplyWindow(RKWaveform *waveform, const RKWindowType type, ..
 
     free(window);
 
-    //RKWaveformNormalizeNoiseGain(waveform);
+    // The peak sample and the energy are no longer the same
+    RKWaveformCalculateGain(waveform, RKWaveformGainAll);
 
     return RKResultSuccess;
 }
-- 
2.43.0


From 5917c4a3516f34f47e79c1533b1b964e0071f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 088/183] fix: keep the full scale of a waveform that is
 appended to another

---
 source/RKWaveform.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 0854405..7bcfbaf 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -326,6 +326,9 @@ RKResult RKWaveformAppendWaveform(RKWaveform *waveform, const RKWaveform *append
     waveform->filterAnchors[0][1].subCarrierFrequency = appendix->filterAnchors[0][0].subCarrierFrequency;
     waveform->filterAnchors[0][1].sensitivityGain = appendix->filterAnchors[0][0].sensitivityGain;
     waveform->filterAnchors[0][1].filterGain = appendix->filterAnchors[0][0].filterGain;
+    waveform->filterAnchors[0][1].fullScale = appendix->filterAnchors[0][0].fullScale;
+    waveform->filterAnchors[0][1].lowerBoundFrequency = appendix->filterAnchors[0][0].lowerBoundFrequency;
+    waveform->filterAnchors[0][1].upperBoundFrequency = appendix->filterAnchors[0][0].upperBoundFrequency;
 
     memcpy(waveform->iSamples[0] + waveform->depth, appendix->iSamples[0], appendix->depth * sizeof(RKInt16C));
     memcpy(waveform->samples[0] + waveform->depth, appendix->samples[0], appendix->depth * sizeof(RKComplex));
-- 
2.43.0


From d01a12a0e0b874d98484cfea05d1a9417b07ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 089/183] fix: name a waveform after its file, not after its
 folders

---
 source/RKWaveform.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 7bcfbaf..13d4a9b 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1016,12 +1016,7 @@ RKResult RKWaveformWriteFile(RKWaveform *waveform, const char *filename) {
         return RKResultFailedToOpenFileForWriting;
     }
     if (strlen(waveform->name) == 0) {
-        char *lastPart = strchr(filename, '/');
-        if (lastPart == NULL) {
-            strcpy(waveform->name, filename);
-        } else {
-            strcpy(waveform->name, lastPart + 1);
-        }
+        snprintf(waveform->name, RKNameLength, "%s", RKLastPartOfPath(filename));
     }
     RKWaveformWriteToReference(waveform, fid);
     fclose(fid);
-- 
2.43.0


From ee4fe14dc0040067942406bf9e840af9cce710ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 090/183] fix: tell when a wave file cannot be written

---
 source/RKWaveform.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 13d4a9b..b0731ef 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1018,8 +1018,12 @@ RKResult RKWaveformWriteFile(RKWaveform *waveform, const char *filename) {
     if (strlen(waveform->name) == 0) {
         snprintf(waveform->name, RKNameLength, "%s", RKLastPartOfPath(filename));
     }
-    RKWaveformWriteToReference(waveform, fid);
-    fclose(fid);
+    size_t bytes = RKWaveformWriteToReference(waveform, fid);
+    bool failed = bytes == 0 || ferror(fid);
+    if (fclose(fid) || failed) {
+        RKLog("Error. Unable to write wave file %s\n", filename);
+        return RKResultFailedToOpenFileForWriting;
+    }
     return RKResultSuccess;
 }
 
-- 
2.43.0


From b31271c9fbb79e4c962dccb28511e3daf19b844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 091/183] fix: update the full scale of a waveform that is
 decimated

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index b0731ef..d03abd6 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -683,7 +683,7 @@ void RKWaveformDecimate(RKWaveform *waveform, const int stride) {
             w[j] = w[i];
         }
     }
-    RKWaveformCalculateGain(waveform, RKWaveformGainNoise);
+    RKWaveformCalculateGain(waveform, RKWaveformGainNoise | RKWaveformGainFullScale);
 }
 
 void RKWaveformDownConvert(RKWaveform *waveform) {
-- 
2.43.0


From 5d4f55847bf30dfd48ede57823e215c3d75ca10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 092/183] fix: let the end of a Tukey window taper off for all
 ratios

---
 source/RKWindow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWindow.c b/source/RKWindow.c
index 33370c8..57fd1ab 100644
--- a/source/RKWindow.c
+++ b/source/RKWindow.c
@@ -165,7 +165,7 @@ void tukey(double *w, const int n, const double r) {
             t += dt;
         }
         for (; i < n; i++) {
-            w[i] = 0.5 * (1.0 + cos(M_PI / p * (t + p)));
+            w[i] = 0.5 * (1.0 + cos(M_PI / p * (t - 1.0 + p)));
             t += dt;
         }
     }
-- 
2.43.0


From 6408e731bd8fa0b8a83988bdde12a8b8a93391bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 093/183] fix: make windows of one sample

---
 source/RKWindow.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/RKWindow.c b/source/RKWindow.c
index 57fd1ab..bb11788 100644
--- a/source/RKWindow.c
+++ b/source/RKWindow.c
@@ -50,6 +50,10 @@ void hamming(double *w, const int n) {
     if (n == 0) {
         return;
     }
+    if (n == 1) {
+        w[0] = 1.0;
+        return;
+    }
 
     for (i = 0; i < m; i++) {
         w[i] = 0.54 - 0.46 * cos(twid * ((double)i));
@@ -80,6 +84,10 @@ void kaiser(double *w, const int n, const double beta) {
     if (n == 0) {
         return;
     }
+    if (n == 1) {
+        w[0] = 1.0;
+        return;
+    }
 
     x = (double *)malloc((m + 1) * sizeof(double));
     v = (double *)malloc(m * sizeof(double));
@@ -132,7 +140,7 @@ void kaiser(double *w, const int n, const double beta) {
 //
 void trapezoid(double *w, const int n, const double gamma) {
     int i;
-    double slope = (gamma < 0.0 ? (fabs(gamma) - 1.0) : (1.0 - gamma)) / (n - 1);
+    double slope = (gamma < 0.0 ? (fabs(gamma) - 1.0) : (1.0 - gamma)) / MAX(n - 1, 1);
     double offset = gamma < 0.0 ? 1.0 : gamma;
     for (i = 0; i < n; i++) {
         w[i] = slope * i + offset;
@@ -142,7 +150,7 @@ void trapezoid(double *w, const int n, const double gamma) {
 void tukey(double *w, const int n, const double r) {
     int i, nl, nh;
     double p, t, dt;
-    if (r <= 0.0) {
+    if (r <= 0.0 || n == 1) {
         for (i = 0; i < n; i++) {
             w[i] = 1.0;
         }
-- 
2.43.0


From 6e146a7870a617b13d1f8f06ca0d608846c6c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 094/183] fix: make ramps of one sample

---
 source/RKRamp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKRamp.c b/source/RKRamp.c
index 6b70127..5032cd3 100644
--- a/source/RKRamp.c
+++ b/source/RKRamp.c
@@ -32,7 +32,7 @@ static void _step(double *r, const int n, double x) {
 //
 
 static void _linear(double *r, const int n) {
-    double slope = (double)1.0 / (n - 1);
+    double slope = (double)1.0 / MAX(n - 1, 1);
     for (int i = 0; i < n; i++) {
         r[i] = slope * i;
     }
@@ -43,7 +43,7 @@ static void _linear(double *r, const int n) {
 //
 
 static void _rcos(double *r, const int n) {
-    double omega = M_PI / (n - 1);
+    double omega = M_PI / MAX(n - 1, 1);
     for (int i = 0; i < n; i++) {
         r[i] = 0.5 * (1.0 - cos(omega * i));
     }
-- 
2.43.0


From 4fe761be6f370dde1384544891f5621c78bb6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 095/183] fix: keep the transition of a step within the ramp

---
 source/RKRamp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRamp.c b/source/RKRamp.c
index 5032cd3..a1deb0c 100644
--- a/source/RKRamp.c
+++ b/source/RKRamp.c
@@ -21,7 +21,7 @@ static void _ones(double *r, const int n) {
 // Step
 //
 static void _step(double *r, const int n, double x) {
-    int s = (int)ceil(x * n);
+    int s = (int)ceil(MIN(MAX(x, 0.0), 1.0) * n);
     for (int i = s; i < n; i++) {
         r[i] = 1.0;
     }
-- 
2.43.0


From 275cdddea986d677bcddaeecb60f92c245a5b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 096/183] fix: fit real-valued waveforms to 16-bit samples when
 they become complex

---
 source/RKWaveform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index d03abd6..c8f9252 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -708,6 +708,8 @@ void RKWaveformDownConvert(RKWaveform *waveform) {
             RKHilbertTransform(w, waveform->samples[i], waveform->depth);
         }
         waveform->type |= RKWaveformTypeIsComplex;
+        // The peak sample can be higher than that of the real-valued function
+        RKWaveformCalculateGain(waveform, RKWaveformGainAll);
     }
 
     // Demodulation tone
-- 
2.43.0


From 823a848a59b404bc0a0848e8eeac26e484033237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 097/183] fix: leave room for whole vectors in the samples of a
 waveform

---
 source/RKWaveform.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index c8f9252..e43e31e 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -59,6 +59,11 @@ static void RKWaveformCalculateGain(RKWaveform *waveform, RKWaveformGain gainCal
     }
 }
 
+// Bytes of an array of samples, as a whole number of SIMD vectors
+static size_t RKWaveformPaddedSize(const size_t size) {
+    return (size + RKMemoryAlignSize - 1) / RKMemoryAlignSize * RKMemoryAlignSize;
+}
+
 #pragma mark - Life Cycle
 
 RKWaveform *RKWaveformInitWithCountAndDepth(const uint8_t count, const uint32_t depth) {
@@ -72,13 +77,13 @@ RKWaveform *RKWaveformInitWithCountAndDepth(const uint8_t count, const uint32_t
         RKLog("Warning. Waveform count is clamped to %s\n", RKIntegerToCommaStyleString(waveform->count));
     }
     for (k = 0; k < waveform->count; k++) {
-        POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->samples[k], RKMemoryAlignSize, waveform->depth * sizeof(RKComplex)));
+        POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->samples[k], RKMemoryAlignSize, RKWaveformPaddedSize(waveform->depth * sizeof(RKComplex))));
         POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->iSamples[k], RKMemoryAlignSize, waveform->depth * sizeof(RKInt16C)));
         if (waveform->samples[k] == NULL || waveform->iSamples[k] == NULL) {
             RKLog("Error. Unable to allocate memory.\n");
             exit(EXIT_FAILURE);
         }
-        memset(waveform->samples[k], 0, waveform->depth * sizeof(RKComplex));
+        memset(waveform->samples[k], 0, RKWaveformPaddedSize(waveform->depth * sizeof(RKComplex)));
         memset(waveform->iSamples[k], 0, waveform->depth * sizeof(RKInt16C));
     }
     return waveform;
@@ -301,7 +306,7 @@ RKResult RKWaveformAppendWaveform(RKWaveform *waveform, const RKWaveform *append
     //waveform->iSamples[0] = realloc(waveform->iSamples[0], depth * sizeof(RKInt16C));
     RKComplex *samples = waveform->samples[0];
     RKInt16C *iSamples = waveform->iSamples[0];
-    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->samples[0], RKMemoryAlignSize, depth * sizeof(RKComplex)));
+    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->samples[0], RKMemoryAlignSize, RKWaveformPaddedSize(depth * sizeof(RKComplex))));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->iSamples[0], RKMemoryAlignSize, depth * sizeof(RKInt16C)));
     memcpy(waveform->samples[0], samples, waveform->depth * sizeof(RKComplex));
     memcpy(waveform->iSamples[0], iSamples, waveform->depth * sizeof(RKInt16C));
@@ -695,7 +700,7 @@ void RKWaveformDownConvert(RKWaveform *waveform) {
     int nfft = (int)powf(2.0f, ceilf(log2f((float)waveform->depth)));
 
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&w, RKMemoryAlignSize, nfft * sizeof(RKFloat)));
-    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&s, RKMemoryAlignSize, nfft * sizeof(RKComplex)));
+    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&s, RKMemoryAlignSize, RKWaveformPaddedSize(nfft * sizeof(RKComplex))));
 
     // Generate an SSB equivalent so that a real-valued function cos(omega t) becomes exp(i omage t)
     if (!(waveform->type & RKWaveformTypeIsComplex)) {
-- 
2.43.0


From e4b865d1a29370e5031b9359ef43f990df52a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 098/183] fix: transform a single sample

---
 source/RKDSP.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index ae01bc2..0d9b2a1 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -305,15 +305,20 @@ void RKHilbertTransform(RKFloat *w, RKComplex *b, const int n) {
 
     out[0][0] *= s;
     out[0][1] *= s;
-    out[nfft >> 1][0] *= s;
-    out[nfft >> 1][1] *= s;
+    if (nfft > 1) {
+        out[nfft >> 1][0] *= s;
+        out[nfft >> 1][1] *= s;
+    }
 
     s = 2.0f / nfft;
     for (i = 1; i < nfft >> 1; i++) {
         out[i][0] *= s;
         out[i][1] *= s;
     }
-    memset(&out[(nfft >> 1) + 1][0], 0, ((nfft >> 1) - 1) * sizeof(fftwf_complex));
+    for (i = (nfft >> 1) + 1; i < nfft; i++) {
+        out[i][0] = 0.0f;
+        out[i][1] = 0.0f;
+    }
 
     fftwf_execute(plan_rev);
 
-- 
2.43.0


From 2ab997eacca000d60feaa2383c01071951178113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 099/183] fix: point the filter of an appended waveform at its
 samples

---
 source/RKWaveform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index e43e31e..9f5d06c 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -323,9 +323,9 @@ RKResult RKWaveformAppendWaveform(RKWaveform *waveform, const RKWaveform *append
     waveform->filterAnchors[0][0].outputOrigin = waveform->filterAnchors[0][0].length + transitionSamples;
 
     waveform->filterAnchors[0][1].name = waveform->filterAnchors[0][0].name + 1;
-    waveform->filterAnchors[0][1].origin = waveform->filterAnchors[0][0].length;
+    waveform->filterAnchors[0][1].origin = waveform->depth;
     waveform->filterAnchors[0][1].length = appendix->filterAnchors[0][0].length;
-    waveform->filterAnchors[0][1].inputOrigin = waveform->filterAnchors[0][0].length;
+    waveform->filterAnchors[0][1].inputOrigin = waveform->depth;
     waveform->filterAnchors[0][1].outputOrigin = 0;
     waveform->filterAnchors[0][1].maxDataLength = waveform->filterAnchors[0][0].length + transitionSamples;
     waveform->filterAnchors[0][1].subCarrierFrequency = appendix->filterAnchors[0][0].subCarrierFrequency;
-- 
2.43.0


From 3aad09d578b3b78829bcd0ed5e058cbc726980ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 100/183] fix: start the filters of a decimated waveform at
 their own samples

---
 source/RKWaveform.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 9f5d06c..94a750c 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -664,8 +664,10 @@ void RKWaveformDecimate(RKWaveform *waveform, const int stride) {
     waveform->depth = downSampledDepth;
     for (l = 0; l < waveform->count; l++) {
         for (k = 0; k < waveform->filterCounts[l]; k++) {
-            waveform->filterAnchors[l][k].origin /= stride;
             waveform->filterAnchors[l][k].length = MAX(1, waveform->filterAnchors[l][k].length / stride);
+            // The first sample of this filter that is kept, not the last one of the previous filter
+            waveform->filterAnchors[l][k].origin = MIN((waveform->filterAnchors[l][k].origin + stride - 1) / stride,
+                                                       waveform->depth - waveform->filterAnchors[l][k].length);
             if (waveform->filterAnchors[l][k].inputOrigin % stride) {
                 waveform->filterAnchors[l][k].inputOrigin += stride;
             }
-- 
2.43.0


From 7164bf48a0ec9626b0514e2065ce1f4bf09a4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:27 +0000
Subject: [PATCH 101/183] fix: convert subnormal numbers, infinity and
 not-a-number to the next precision

---
 source/RKDSP.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index 0d9b2a1..7938bb0 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -622,16 +622,26 @@ RKGaussian RKSGFit(RKFloat *x, RKComplex *y, const int count) {
 
 RKWordFloat64 RKSingle2Double(const RKWordFloat32 s) {
     RKWordFloat64 d;
+    if (s.e == 0 || s.e == 255) {
+        // Zeros and subnormal numbers; infinity and not-a-number
+        d.value = (double)s.value;
+        return d;
+    }
     d.s = s.s;
-    d.e = s.e == 0 ? 0 : (uint16_t)s.e - 127 + 1023;
+    d.e = (uint16_t)s.e - 127 + 1023;
     d.m = (uint64_t)s.m << 29;
     return d;
 }
 
 RKWordFloat32 RKHalf2Single(const RKWordFloat16 s) {
     RKWordFloat32 d;
+    if (s.e == 0) {
+        // Zeros and subnormal numbers
+        d.value = (s.s ? -1.0f : 1.0f) * ldexpf((float)s.m, -24);
+        return d;
+    }
     d.s = s.s;
-    d.e = s.e == 0 ? 0 : s.e - 15 + 127;
+    d.e = s.e == 31 ? 255 : s.e - 15 + 127;
     d.m = (uint32_t)s.m << 13;
     return d;
 }
-- 
2.43.0


From 7d93c03c975133ddebbc32ca5818508bff6feb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 102/183] fix: let the parameter and the blend of a window
 default to 0.0

---
 headers/RadarKit/RKWindow.h | 5 ++++-
 source/RKWindow.c           | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/headers/RadarKit/RKWindow.h b/headers/RadarKit/RKWindow.h
index 11520a4..48c9ac2 100644
--- a/headers/RadarKit/RKWindow.h
+++ b/headers/RadarKit/RKWindow.h
@@ -21,6 +21,9 @@ enum {
     RKWindowTypeTrapezoid
 };
 
-void RKWindowMake(RKFloat *buffer, RKWindowType type, const int length, ...);
+void (RKWindowMake)(RKFloat *buffer, RKWindowType type, const int length, ...);
+
+// The parameter and the blend are 0.0 if not supplied
+#define RKWindowMake(buffer, type, ...) RKWindowMake(buffer, type, __VA_ARGS__, 0.0, 0.0)
 
 #endif /* defined(__RadarKit_Window__) */
diff --git a/source/RKWindow.c b/source/RKWindow.c
index bb11788..e6df2ff 100644
--- a/source/RKWindow.c
+++ b/source/RKWindow.c
@@ -186,7 +186,7 @@ void tukey(double *w, const int n, const double r) {
 // RKWindowMake(buffer, RKWindowTypeHann, 20, 0.2) creates a Hann window of length 20, 0.2 blend with rectangular window (0.2 like rectangle)
 // RKWindowMake(buffer, RKWindowTypeKaiser, 20, 0.2) creates a Kaiser window of length 20 with factor 0.2
 //
-void RKWindowMake(RKFloat *buffer, RKWindowType type, const int length, ...) {
+void (RKWindowMake)(RKFloat *buffer, RKWindowType type, const int length, ...) {
     int k;
     double param, blend;
     va_list args;
@@ -198,7 +198,7 @@ void RKWindowMake(RKFloat *buffer, RKWindowType type, const int length, ...) {
     double *window = (double *)malloc(length * sizeof(double));
     memset(window, 0, length * sizeof(double));
 
-    // The next arg is interpreted as NULL = 0.0 if not supplied
+    // The next args are 0.0 if not supplied, see RKWindow.h
     va_start(args, length);
 
     switch (type) {
-- 
2.43.0


From 1ca447eb6a6beb41e53e7b512de5426871d2a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 103/183] fix: measure no noise from no gates

---
 source/RKDSP.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index 7938bb0..4350971 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -52,7 +52,7 @@ int RKMeasureNoiseFromPulse(RKFloat *noise, RKPulse *pulse, const int origin) {
         RKLog("Noise measurement timed out.  k = %d  pulse.header.s = %04x\n", k, pulse->header.s);
         return RKResultTimeout;
     }
-    if (pulse->header.gateCount < 2 * origin) {
+    if (pulse->header.gateCount <= 2 * origin) {
         RKLog("Error. Unable to measure noise at origin %s with %s gates.\n",
               RKIntegerToCommaStyleString(origin), RKIntegerToCommaStyleString(pulse->header.gateCount));
         return RKResultTooBig;
-- 
2.43.0


From fe21d0e809494b29dcc06c52750791a2029db891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 104/183] fix: estimate no noise from fewer gates than a
 running sum takes

---
 source/RKNoiseEstimator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKNoiseEstimator.c b/source/RKNoiseEstimator.c
index 8a73019..45992a3 100644
--- a/source/RKNoiseEstimator.c
+++ b/source/RKNoiseEstimator.c
@@ -328,6 +328,10 @@ int RKRayNoiseEstimator(RKMomentScratch *space, RKPulse **pulses, const uint16_t
             }
         }
         noiseGateCount = u;
+        if (noiseGateCount < runSumLength) {
+            failed = true;
+            break;
+        }
         f = x / noiseGateCount;
         // RKLog("I am here before n, noise %f (ADU^2)\n", intermediate_power * iq_pm);
         // RKLog("< NoiseEngine > crash 317.\n");
-- 
2.43.0


From c9a593ef7d74fd63d9ea88b40a47d37e1a7035a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 105/183] fix: average the noise of those pulses that were
 measured

---
 source/RKRadar.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 021b939..3b110e4 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2678,15 +2678,19 @@ void RKMeasureNoise(RKRadar *radar) {
     }
     // Account for down-sampling stride in PulseCompressionEngine
     origin /= MAX(1, radar->desc.pulseToRayRatio);
+    int count = 0;
     for (k = 0; k < RKPulseCountForNoiseMeasurement; k++) {
         index = RKPreviousModuloS(index, radar->desc.pulseBufferDepth);
         pulse = RKGetPulseFromBuffer(radar->pulses, index);
-        RKMeasureNoiseFromPulse(noise, pulse, origin);
+        if (RKMeasureNoiseFromPulse(noise, pulse, origin) != RKResultSuccess) {
+            continue;
+        }
         noiseAverage[0] += noise[0];
         noiseAverage[1] += noise[1];
+        count++;
     }
-    noiseAverage[0] /= (RKFloat)k;
-    noiseAverage[1] /= (RKFloat)k;
+    noiseAverage[0] /= (RKFloat)count;
+    noiseAverage[1] /= (RKFloat)count;
     if (!isfinite(noiseAverage[0])) {
         noiseAverage[0] = 0.001f;
     }
-- 
2.43.0


From a850217e5d557df131fffa0ad967d86ed6fdbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 106/183] fix: give a keyword without a value an empty one

---
 source/RKPreference.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 2f0fad1..05d7a0c 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -74,7 +74,9 @@ int RKPreferenceUpdate(RKPreference *preference) {
             while (*s != '\0' && (*s != ' ' && *s != '\t')) {
                 s++;
             }
-            *s++ = '\0';
+            if (*s != '\0') {
+                *s++ = '\0';
+            }
             // Now, find the first character
             while (*s != '\0' && (*s == ' ' || *s == '\t')) {
                 s++;
-- 
2.43.0


From 85e9d5ae15d36e199c6518d3d4b1007b39a946eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 107/183] fix: close the preference file

---
 source/RKPreference.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 05d7a0c..033d75e 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -138,6 +138,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
     }
 
     free(line);
+    fclose(fid);
 
     return RKResultSuccess;
 }
-- 
2.43.0


From d3a022d9f5095cc5c5ab8303213c06659fc79c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 108/183] fix: keep long keywords and words of preferences
 within their room

---
 source/RKPreference.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 033d75e..590edd9 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -91,8 +91,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
                     *e = '\0';
                 }
             }
-            strncpy(preference->objects[k].keyword, line, RKNameLength);
-            strncpy(preference->objects[k].valueString, s, RKMaximumStringLength);
+            strncpy(preference->objects[k].keyword, line, RKNameLength - 1);
+            strncpy(preference->objects[k].valueString, s, RKMaximumStringLength - 1);
             RKStripTail(preference->objects[k].valueString);
             preference->objects[k].isValid = true;
             if ((preference->objects[k].valueString[0] >= '0' && preference->objects[k].valueString[0] <= '9') ||
@@ -109,7 +109,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
 					   !strncasecmp(preference->objects[k].valueString, "true", 4) ||
 					   !strncasecmp(preference->objects[k].valueString, "yes", 3) ||
 					   !strncasecmp(preference->objects[k].valueString, "no", 2)) {
-				sscanf(preference->objects[k].valueString, "%s %s %s %s",
+				sscanf(preference->objects[k].valueString, "%127s %127s %127s %127s",
 					   preference->objects[k].subStrings[0],
 					   preference->objects[k].subStrings[1],
 					   preference->objects[k].subStrings[2],
-- 
2.43.0


From e98b09a7d29f5e153841382400a3df3d7a323079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 109/183] fix: look for keywords from the start after
 preferences are read again

---
 source/RKPreference.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 590edd9..1e558f5 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -47,6 +47,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
     }
     memset(preference->objects, 0, RKPreferenceObjectCount * sizeof(RKPreferenceObject));
     preference->count = 0;
+    preference->previousIndex = 0;
+    preference->previousKeyword[0] = '\0';
 
     char *line = (char *)malloc(RKMaximumStringLength);
 
-- 
2.43.0


From 7faf67380356b60269818fafd89da4edb10fe576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 110/183] fix: count the keywords and come to an end

---
 source/RKPreference.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 1e558f5..90270f2 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -166,12 +166,14 @@ RKPreferenceObject *RKPreferenceFindKeyword(RKPreference *preference, const char
 
 int RKPreferenceGetKeywordCount(RKPreference *preference, const char *keyword) {
     int k = 0;
+    int count = 0;
     while (k < RKPreferenceObjectCount && preference->objects[k].isValid == true) {
         if (!strcasecmp(preference->objects[k].keyword, keyword)) {
-            k++;
+            count++;
         }
+        k++;
     }
-    return k;
+    return count;
 }
 
 int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, const char *keyword, void *target, const int type, const int count) {
-- 
2.43.0


From 9b9eac95d70c628a0eaba013a92ba705f1e569e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 111/183] fix: end a preference text that fills its room

---
 source/RKPreference.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 90270f2..ba42132 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -229,7 +229,8 @@ int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, cons
                     break;
                 case RKParameterTypeString:
                     // For string type, count is used as the maximum length, i = count ensure there is only 1 iteration
-                    strncpy((char *)target, object->valueString, count);
+                    strncpy((char *)target, object->valueString, count - 1);
+                    ((char *)target)[count - 1] = '\0';
                     k += snprintf(string + k, RKMaximumStringLength - k, " %s", (char *)target);
                     i = count;
                     break;
-- 
2.43.0


From fdd9326a808ced09735b8e822dea858735ad9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 112/183] fix: keep the texts of a control within their room
 and apart from the one before

---
 source/RKPreference.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index ba42132..04975d6 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -246,7 +246,11 @@ int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, cons
 }
 
 int RKControlFromPreferenceObject(RKControl *control, RKPreferenceObject *object) {
-    RKParseQuotedStrings(object->valueString, control->label, control->command, NULL);
+    char label[RKMaximumStringLength] = "";
+    char command[RKMaximumStringLength] = "";
+    RKParseQuotedStrings(object->valueString, label, command, NULL);
+    snprintf(control->label, sizeof(control->label), "%s", label);
+    snprintf(control->command, sizeof(control->command), "%s", command);
     if (strlen(control->label) == 0 || strlen(control->command) == 0) {
         RKLog("Warning. Incomplete control. %s\n", object->valueString);
         return RKResultIncompleteControl;
-- 
2.43.0


From efff7f374b9424e49dad367853863dfc81a13f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 113/183] fix: keep the name of a waveform calibration within
 its room

---
 source/RKPreference.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 04975d6..4e993a6 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -261,7 +261,7 @@ int RKControlFromPreferenceObject(RKControl *control, RKPreferenceObject *object
 int RWaveformCalibrationFromPreferenceObject(RKWaveformCalibration *calibration, RKPreferenceObject *object) {
     int j, n;
     char *c;
-    n = sscanf(object->valueString, "%s %" SCNu8, calibration->name, &calibration->count);
+    n = sscanf(object->valueString, "%127s %" SCNu8, calibration->name, &calibration->count);
     if (n != 2) {
         RKLog("Error. Unable to parse waveform calibration.");
         return RKResultIncompleteWaveformCalibration;
-- 
2.43.0


From 73f9db9a7f167f5a9f62a6eb03effa4c0dcbd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 114/183] fix: strip tabs from the tail of a text

---
 source/RKMisc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index c7f5dee..0df8c01 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1033,7 +1033,7 @@ char *RKSignalString(const int signal) {
 int RKStripTail(char *string) {
     int k = 0;
     char *c = string + strlen(string) - 1;
-    while (c > string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == 10)) {
+    while (c > string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == '\t')) {
         *c-- = '\0';
         k++;
     }
-- 
2.43.0


From 42a01d0543266d239fa3e8195ec77c5a4b94be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 115/183] fix: read signed preference numbers that begin with a
 decimal point

---
 source/RKPreference.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 4e993a6..94a1759 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -99,8 +99,9 @@ int RKPreferenceUpdate(RKPreference *preference) {
             preference->objects[k].isValid = true;
             if ((preference->objects[k].valueString[0] >= '0' && preference->objects[k].valueString[0] <= '9') ||
                 (preference->objects[k].valueString[0] == '.' && preference->objects[k].valueString[1] >= '0' && preference->objects[k].valueString[1] <= '9') ||
-                (preference->objects[k].valueString[0] == '-' && preference->objects[k].valueString[1] >= '0' && preference->objects[k].valueString[1] <= '9') ||
-                (preference->objects[k].valueString[0] == '+' && preference->objects[k].valueString[1] >= '0' && preference->objects[k].valueString[1] <= '9')) {
+                ((preference->objects[k].valueString[0] == '-' || preference->objects[k].valueString[0] == '+') &&
+                 ((preference->objects[k].valueString[1] >= '0' && preference->objects[k].valueString[1] <= '9') ||
+                  (preference->objects[k].valueString[1] == '.' && preference->objects[k].valueString[2] >= '0' && preference->objects[k].valueString[2] <= '9')))) {
                 preference->objects[k].isNumeric = true;
                 preference->objects[k].numericCount = sscanf(preference->objects[k].valueString, "%lf %lf %lf %lf",
                                                              &preference->objects[k].doubleValues[0],
-- 
2.43.0


From 87ca6994bbf8e0a66d19efa5ae170ba69cd57d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 116/183] fix: take an empty data path as it is

---
 rkutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkutil.c b/rkutil.c
index 7edcd91..83272f4 100644
--- a/rkutil.c
+++ b/rkutil.c
@@ -363,7 +363,7 @@ static void updateSystemPreferencesFromControlFile(UserParams *user) {
 
     // Revise some parameters
     s = (int)strlen(user->desc.dataPath);
-    if (user->desc.dataPath[s - 1] == '/') {
+    if (s > 0 && user->desc.dataPath[s - 1] == '/') {
         user->desc.dataPath[s - 1] = '\0';
     }
     if (!isfinite(user->SNRThreshold)) {
-- 
2.43.0


From d0873c75a2905362e93ec7526072bf2329ff4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:26 +0000
Subject: [PATCH 117/183] fix: keep long messages within the room of a log line

---
 source/RKFoundation.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 443c0c6..544dce7 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -99,6 +99,8 @@ int RKLog(const char *whatever, ...) {
     struct timeval utc;
     va_list args;
     struct tm tm;
+    bool truncated = false;
+    const int room = RKMaximumStringLength - 16;                                                    // Some room for color and the end of line
 
     // Local memory
     static char *msg = NULL;
@@ -207,7 +209,11 @@ int RKLog(const char *whatever, ...) {
         }
         strncpy(colored_whatever + len, anchor, RKMaximumStringLength - len);
 
-        i += vsprintf(msg + i, colored_whatever, args);
+        i += vsnprintf(msg + i, room - i, colored_whatever, args);
+        if (i >= room) {
+            i = room - 1;
+            truncated = true;
+        }
 
         if (rkGlobalParameters.showColor) {
             sprintf(msg + i, RKNoColor);
@@ -215,11 +221,11 @@ int RKLog(const char *whatever, ...) {
 
         free(colored_whatever);
     } else {
-        vsprintf(msg + i, anchor, args);
+        truncated = vsnprintf(msg + i, room - i, anchor, args) >= room - i;
     }
 
-    if (whatever[strlen(whatever) - 1] != '\n') {
-        strncat(msg, "\n", RKMaximumStringLength - 1);
+    if (truncated || whatever[0] == '\0' || whatever[strlen(whatever) - 1] != '\n') {
+        strcat(msg, "\n");
     }
     va_end(args);
     // Produce the string to the specified stream
-- 
2.43.0


From e8b4329207e556bbbbda6a662116b771510b9705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:26 +0000
Subject: [PATCH 118/183] fix: go on logging after a message that is too long

---
 source/RKFoundation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 544dce7..659071e 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -148,6 +148,8 @@ int RKLog(const char *whatever, ...) {
     va_start(args, whatever);
     if (strlen(whatever) > RKMaximumStringLength - 256) {
         fprintf(stderr, "RKLog() could potential crash for string '%s'\n", whatever);
+        va_end(args);
+        pthread_mutex_unlock(&lock);
         return 1;
     }
     if (rkGlobalParameters.logTimeOnly) {
-- 
2.43.0


From f1f5ac060de0c21e8649a4e1b5bf2c9c42c7ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:26 +0000
Subject: [PATCH 119/183] fix: name the daily log in a folder with a long name

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 659071e..69abf74 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -245,7 +245,7 @@ int RKLog(const char *whatever, ...) {
         } else {
             i = 0;
         }
-        strftime(filename + i, RKNameLength - i, "%Y%m%d.log", &tm);
+        strftime(filename + i, RKMaximumPathLength - i, "%Y%m%d.log", &tm);
         if (i) {
             RKPreparePath(filename);
         }
-- 
2.43.0


From 0fcdecf49162de111593b8ba282bf30a17485e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:26 +0000
Subject: [PATCH 120/183] fix: keep the name of the root folder within its
 room, also an empty one

---
 source/RKFoundation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 69abf74..322604d 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -350,12 +350,12 @@ int RKSetRootFolder(const char *folder) {
 }
 
 int RKSetRootDataFolder(const char *folder) {
-    if (strlen(folder) > RKMaximumPathLength - 64) {
+    if (strlen(folder) >= sizeof(rkGlobalParameters.rootDataFolder)) {
         fprintf(stderr, "WARNING. Very long root folder.\n");
     }
-    sprintf(rkGlobalParameters.rootDataFolder, "%s", folder);
+    snprintf(rkGlobalParameters.rootDataFolder, sizeof(rkGlobalParameters.rootDataFolder), "%s", folder);
     size_t len = strlen(rkGlobalParameters.rootDataFolder);
-    while (rkGlobalParameters.rootDataFolder[len - 1] == '/') {
+    while (len > 0 && rkGlobalParameters.rootDataFolder[len - 1] == '/') {
         len--;
     }
     rkGlobalParameters.rootDataFolder[len] = '\0';
-- 
2.43.0


From 8327ffc34fb5b183a540020fce450b21b0e0ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:26 +0000
Subject: [PATCH 121/183] fix: keep the default log in the root folder if there
 is one

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 322604d..45fbdd4 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -374,7 +374,7 @@ int RKSetLogfile(const char *filename) {
 }
 
 int RKSetLogfileToDefault(void) {
-    if (strlen(rkGlobalParameters.rootDataFolder)) {
+    if (strlen(rkGlobalParameters.rootDataFolder) == 0) {
         snprintf(rkGlobalParameters.logfile, RKMaximumPathLength, "%s", RKDefaultLogfile);
     } else {
         snprintf(rkGlobalParameters.logfile, RKMaximumPathLength, "%s/%s", rkGlobalParameters.rootDataFolder, RKDefaultLogfile);
-- 
2.43.0


From 655e247c32c8d635b72826d6e4831b55eee341dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 122/183] fix: refuse a clock whose history holds no reading
 from a stride before

---
 source/RKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index 5ede489..01238f0 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -12,7 +12,7 @@
 #pragma mark Life Cycle
 
 RKClock *RKClockInitWithSize(const uint32_t size, const uint32_t stride) {
-    if (size < stride) {
+    if (size <= stride) {
         RKLog("Error. Clock size must be greater than stride.\n");
         return NULL;
     }
-- 
2.43.0


From c992086609bbea63b5326035cab8e92a1ce5bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:57 +0000
Subject: [PATCH 123/183] fix: keep the time of a clock when its reference
 cannot be used

---
 source/RKClock.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index 01238f0..d85eea4 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -127,9 +127,10 @@ void RKClockSetHighPrecision(RKClock *clock, const bool value) {
 //   us up to the precision of microseconds. If more than such precision is needed. The
 //   reference time should be set to a running reference.
 //
-double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
+double RKClockGetTime(RKClock *clock, const double reference, struct timeval *timeval) {
     int j = 0;
     double x, dx, du, y;
+    double u = reference;
     struct timeval t;
     bool recent = true;
     
@@ -145,6 +146,10 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         x = (double)t.tv_sec + 1.0e-6 * (double)t.tv_usec;
     }
     y = x;
+    // Use own tic if the reference has been found unusable
+    if (clock->useInternalReference) {
+        u = (double)clock->tic++;
+    }
     // Reset the references when clock count = 0 or it has been a while
     if (x - clock->latestTime > RKClockAWhile && clock->count > 0) {
         RKLog("%s Warning. Self reset  %f - %f = %f   count = %u\n", clock->name, x, clock->latestTime, x - clock->latestTime, clock->count);
@@ -163,11 +168,7 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
     const int k = clock->index;
     clock->tBuffer[k] = t;
     clock->xBuffer[k] = x;
-    if (clock->useInternalReference) {
-        clock->uBuffer[k] = clock->tic++;
-    } else {
-        clock->uBuffer[k] = u;
-    }
+    clock->uBuffer[k] = u;
     // We are done with the indices; update them for the next call
     clock->index = RKNextModuloS(k, clock->size);
     // Derive time only if the clock has been called at least once. Otherwise (1.0 / clock->count) would be undefined
@@ -202,10 +203,22 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
                     RKLog("%s Warning. Reference tic change of %.e per second is unexpected.\n", clock->name, du);
                     RKLog("%s Warning. Will be replaced with an internal uniform reference.\n", clock->name);
                 }
-                // Override with own tic?
+                // Override with own tic and start over since the tics so far cannot be compared with own tic
                 clock->useInternalReference = true;
-                clock->uBuffer[k] = clock->tic++;
-                du = clock->uBuffer[k] - clock->uBuffer[j];
+                clock->hasWisdom = false;
+                u = (double)clock->tic++;
+                clock->x0 = x;
+                clock->u0 = u;
+                clock->sum_x0 = x;
+                clock->sum_u0 = u;
+                clock->xBuffer[0] = x;
+                clock->uBuffer[0] = u;
+                clock->yBuffer[0] = x;
+                clock->zBuffer[0] = clock->dx;
+                clock->index = 1;
+                clock->count = 1;
+                clock->latestTime = x;
+                return x + clock->offsetSeconds;
             }
             if (clock->count == clock->stride) {
                 RKLog("%s b = %.2e   du/dx = %s   offset = %.3f us", clock->name, clock->b, RKFloatToCommaStyleString(1.0 / clock->dx), 1.0e6 * clock->offsetSeconds);
@@ -273,6 +286,7 @@ void RKClockReset(RKClock *clock) {
     clock->index = 0;
     clock->count = 0;
     clock->tic = 0;
+    clock->useInternalReference = false;
     clock->latestTime = 0;
     clock->infoShown = false;
     RKLog("%s Reset   du/dx = %s\n", clock->name, RKFloatToCommaStyleString(1.0 / clock->dx));
-- 
2.43.0


From 1ebcc4ff479538378180e0e813dd8ae8ded8bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 124/183] fix: add no file that is not there or not in the
 folder, and go on after one

---
 source/RKFileManager.c | 55 ++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index da8d791..6b2280a 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -762,10 +762,30 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
         return RKResultEngineNotActive;
     }
 
+    if (type >= engine->workerCount) {
+        RKLog("%s No files of type %u.\n", engine->name, type);
+        return RKResultFileManagerInconsistentFolder;
+    }
+
     pthread_mutex_lock(&engine->mutex);
 
+    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
+
+    const size_t pathLength = strlen(me->path);
+    const char *lastPart = strrchr(filename, '/');
+    if (strncmp(me->path, filename, pathLength) || filename[pathLength] != '/' || lastPart <= filename + pathLength ||
+        lastPart - filename - pathLength > RKFileManagerFilenameLength || strlen(lastPart) > RKFileManagerFilenameLength) {
+        RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
+
     struct stat fileStat;
-    stat(filename, &fileStat);
+    if (stat(filename, &fileStat)) {
+        RKLog("%s File %s is not there.\n", engine->name, filename);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
 
     gettimeofday(&me->latestTime, NULL);
 
@@ -783,40 +803,11 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     // Copy over the filename and stats to the internal buffer
     uint32_t k = me->count;
 
-    // Extract out the date portion
-    char *lastPart = strrchr(filename, '/');
-    if (lastPart) {
-        if (strlen(lastPart) > RKFileManagerFilenameLength - 1) {
-            RKLog("%s Error. I could crash here.\n", me->name);
-        }
-        if ((void *)&filenames[k] > ((void *)filenames) + me->capacity * sizeof(RKPathname) - RKFileManagerFilenameLength) {
-            RKLog("%s Error. I could crash here.   %p vs %p   k = %d / %d\n", me->name,
-                  (void *)&filenames[k], ((void *)filenames) + me->capacity * sizeof(RKPathname) - RKFileManagerFilenameLength,
-                  k, me->capacity);
-        }
-        strncpy(filenames[k], lastPart + 1, RKFileManagerFilenameLength - 1);
-    } else {
-        if (strlen(filename) > RKFileManagerFilenameLength - 1) {
-            RKLog("%s %s Warning. Filename is too long.\n", engine->name,  me->name);
-        }
-        strncpy(filenames[k], filename, RKFileManagerFilenameLength - 1);
-    }
-
-    if (strncmp(me->path, filename, strlen(me->path))) {
-        RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
-        return RKResultFileManagerInconsistentFolder;
-    }
-
-    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
+    strcpy(filenames[k], lastPart + 1);
 
     int folderId = 0;
     char *folder = engine->scratch;
-    strcpy(folder, filename + strlen(me->path) + 1);
-    char *e = strrchr(folder, '/');
-    *e = '\0';
-    if (strlen(folder) > RKFileManagerFilenameLength - 1) {
-        RKLog("%s Warning. Folder name is too long.\n", engine->name);
-    }
+    snprintf(folder, RKFileManagerFilenameLength, "%.*s", (int)(lastPart - filename - pathLength) - 1, filename + pathLength + 1);
     if (k == 0) {
         // The data folder is empty
         folderId = 0;
-- 
2.43.0


From 9c40b70286e55621f4bb0665aea7e758f56df2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 125/183] fix: keep files with the longest names, leave those
 that are longer

---
 source/RKFileManager.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 6b2280a..0bafa76 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -19,7 +19,7 @@
 // Health: XXXXXX-YYYYMMDD-HHMMSS.json           (27 chars)
 // Log   : XXXXXX-YYYYMMDD.log                   (19 chars)
 
-#define RKFileManagerFilenameLength                 (RKMaximumSymbolLength + 25 + RKMaximumFileExtensionLength)
+#define RKFileManagerFilenameLength                 (RKMaximumPrefixLength + RKMaximumSymbolLength + 25 + RKMaximumFileExtensionLength)
 
 typedef char RKPathname[RKFileManagerFilenameLength];
 typedef struct _rk_indexed_stat {
@@ -92,7 +92,7 @@ static int listElementsInFolder(RKPathname *list, const int maximumCapacity, con
             if ((type == DT_REG && S_ISREG(status.st_mode)) ||
                 (type == DT_DIR && S_ISDIR(status.st_mode))) {
                 r = snprintf(list[k], RKFileManagerFilenameLength, "%s", dir->d_name);
-                if (r < 0) {
+                if (r < 0 || r >= RKFileManagerFilenameLength) {
                     RKLog("Error. listElementsInFolder() dir->d_name = %s\n", dir->d_name);
                     continue;
                 }
@@ -100,7 +100,7 @@ static int listElementsInFolder(RKPathname *list, const int maximumCapacity, con
             }
         } else if (dir->d_type == type && dir->d_name[0] != '.') {
             r = snprintf(list[k], RKFileManagerFilenameLength, "%s", dir->d_name);
-            if (r < 0) {
+            if (r < 0 || r >= RKFileManagerFilenameLength) {
                 RKLog("Error. listElementsInFolder() dir->d_name = %s\n", dir->d_name);
                 continue;
             }
-- 
2.43.0


From b4f8815f1cdb65a2896959bd96ec2e85cdc77e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 126/183] fix: remove empty folders only, whatever their names

---
 source/RKFileManager.c | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 0bafa76..7268b03 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -127,7 +127,7 @@ static bool isFolderEmpty(const char *path) {
         return false;
     }
     while ((dir = readdir(did)) != NULL) {
-        if (dir->d_type == DT_REG) {
+        if (strcmp(dir->d_name, ".") && strcmp(dir->d_name, "..")) {
             closedir(did);
             return false;
         }
@@ -137,9 +137,8 @@ static bool isFolderEmpty(const char *path) {
 }
 
 static void refreshFileList(RKFileRemover *me) {
-    int i, j, k;
+    int j, k;
     struct stat fileStat;
-    char command[RKMaximumPathLength + 8];
     char string[RKMaximumStringLength];
     char format[32];
 
@@ -186,16 +185,11 @@ static void refreshFileList(RKFileRemover *me) {
             RKLog("%s Error. Unable to list files in %s\n", me->name, string);
             return;
         } else if (count == 0) {
-            RKLog(">%s Removing %s ...\n", me->name, string);
-            i = snprintf(command, RKMaximumCommandLength, "rm -rf %s", string);
-            if (i < 0) {
-                RKLog("%s Error. Failed generating system command.\n", me->name);
-                RKLog("%s Error. path = %s.\n", me->name, string);
-                break;
-            }
-            i = system(command);
-            if (i) {
-                RKLog("Error. system(%s) -> %d   errno = %d\n", command, i, errno);
+            if (isFolderEmpty(string)) {
+                RKLog(">%s Removing %s ...\n", me->name, string);
+                if (rmdir(string)) {
+                    RKLog("%s Error. rmdir(%s)   errno = %d\n", me->name, string, errno);
+                }
             }
         } else if (count == me->capacity - me->count) {
             RKLog("%s Info. At capacity. Suggest keeping less data on main host.\n", me->name);
@@ -271,7 +265,6 @@ static void *fileRemover(void *in) {
     const int c = me->id;
 
     char path[RKMaximumPathLength + 256];
-    char command[RKMaximumPathLength];
     char parentFolder[RKFileManagerFilenameLength] = "";
     struct timeval time = {0, 0};
 
@@ -408,15 +401,8 @@ static void *fileRemover(void *in) {
                 sprintf(path, "%s/%s", me->path, parentFolder);
                 if (isFolderEmpty(path)) {
                     RKLog("%s Removing folder %s that is empty ...\n", me->name, path);
-                    k = snprintf(command, RKMaximumCommandLength, "rm -rf %s", path);
-                    if (k < 0) {
-                        RKLog("%s Error. Failed generating system command.\n", me->name);
-                        RKLog("%s Error. path = %s.\n", me->name, path);
-                        break;
-                    }
-                    k = system(command);
-                    if (k) {
-                        RKLog("Error. system(%s) -> %d   errno = %d\n", command, k, errno);
+                    if (rmdir(path)) {
+                        RKLog("%s Error. rmdir(%s)   errno = %d\n", me->name, path, errno);
                     }
                 }
                 RKLog("%s New parentFolder = %s -> %s\n", me->name, parentFolder, folders[indexedStats[me->index].folderId]);
-- 
2.43.0


From 5f9cbc19a41d8f47878831108d000428f606ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 127/183] fix: measure the usage of folders with more files
 than the list takes

---
 source/RKFileManager.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 7268b03..5f36ee7 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -237,15 +237,20 @@ static void refreshFileList(RKFileRemover *me) {
         me->usage = 0;
         for (k = 0; k < folderCount; k++) {
             struct dirent *dir;
-            sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
+            snprintf(string, sizeof(string), "%s/%s", me->path, folders[k]);
             DIR *did = opendir(string);
             if (did == NULL) {
                 fprintf(stderr, "Unable to list folder '%s'\n", string);
                 continue;
             }
             while ((dir = readdir(did)) != NULL) {
-                sprintf(string, "%s/%s/%s", me->path, folders[k], dir->d_name);
-                stat(string, &fileStat);
+                if (dir->d_name[0] == '.') {
+                    continue;
+                }
+                snprintf(string, sizeof(string), "%s/%s/%s", me->path, folders[k], dir->d_name);
+                if (lstat(string, &fileStat) || !S_ISREG(fileStat.st_mode)) {
+                    continue;
+                }
                 me->usage += fileStat.st_size;
             }
             closedir(did);
-- 
2.43.0


From dc0d4fe0b16d242215f4e68faba49c91091fda01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 128/183] fix: sort files by the time of their names in all
 time zones

---
 source/RKFileManager.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 5f36ee7..3c41d55 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -35,7 +35,7 @@ typedef struct _rk_indexed_stat {
 static int struct_cmp_by_time(const void *a, const void *b) {
     RKIndexedStat *x = (RKIndexedStat *)a;
     RKIndexedStat *y = (RKIndexedStat *)b;
-    return (int)(x->time - y->time);
+    return (x->time > y->time) - (x->time < y->time);
 }
 
 // Compare two filenames in the pattern of YYYYMMDD, e.g., 20170402
@@ -61,8 +61,12 @@ static time_t timeFromFilename(const char *filename) {
         return 0;
     }
     struct tm tm;
-    strptime(yyyymmdd, "%Y%m%d-%H%M%S", &tm);
-    return mktime(&tm);
+    memset(&tm, 0, sizeof(struct tm));
+    if (strptime(yyyymmdd, "%Y%m%d-%H%M%S", &tm) == NULL) {
+        RKLog("Warning. Unexpected file pattern.\n");
+        return 0;
+    }
+    return timegm(&tm);
 }
 
 static int listElementsInFolder(RKPathname *list, const int maximumCapacity, const char *path, uint8_t type) {
-- 
2.43.0


From 225d19ca8be5e04b0cffcd7b03f290dc9376bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 129/183] fix: keep files of those kinds for which no limit is
 set

---
 source/RKFileManager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 3c41d55..1f11345 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -704,7 +704,7 @@ void RKFileManagerSetHealthDataLimit(RKFileManager *engine, const size_t limit)
 int RKFileManagerStart(RKFileManager *engine) {
     // File manager is always assumed wired, dataPath may be empty
     engine->state |= RKEngineStateProperlyWired;
-    if (engine->userRawDataUsageLimit == 0 && engine->userMomentDataUsageLimit == 0 && engine->userHealthDataUsageLimit == 0 &&
+    if ((engine->userRawDataUsageLimit == 0 || engine->userMomentDataUsageLimit == 0 || engine->userHealthDataUsageLimit == 0) &&
         engine->usagelimit == 0) {
         engine->usagelimit = RKFileManagerDefaultUsageLimit;
         RKLog("%s Usage limit not set, use default %s%s B%s (%s %s)\n",
-- 
2.43.0


From e58509b8497a498203e4c82457cfd779345bd930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 130/183] fix: stop the file manager while its workers wait for
 it or files are added

---
 source/RKFileManager.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 1f11345..84cda50 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -365,13 +365,14 @@ static void *fileRemover(void *in) {
               100.0f * me->usage / me->limit);
     }
 
+    engine->state |= RKEngineStateActive;
+
+    me->index = 0;
+
     me->tic++;
 
     pthread_mutex_unlock(&engine->mutex);
 
-    engine->state |= RKEngineStateActive;
-
-    me->index = 0;
     while (engine->state & RKEngineStateWantActive) {
 
         pthread_mutex_lock(&engine->mutex);
@@ -445,12 +446,16 @@ static void *fileRemover(void *in) {
         }
     }
 
+    // No more files are added
+    pthread_mutex_lock(&engine->mutex);
+    free(folders);
     free(filenames);
     free(indexedStats);
 
     RKLog(">%s Stopped.\n", me->name);
 
-    engine->state ^= RKEngineStateActive;
+    engine->state &= ~RKEngineStateActive;
+    pthread_mutex_unlock(&engine->mutex);
     return NULL;
 }
 
@@ -613,7 +618,10 @@ static void *folderWatcher(void *in) {
     for (k = 0; k < engine->workerCount; k++) {
         pthread_join(engine->workers[k].tid, NULL);
     }
+    pthread_mutex_lock(&engine->mutex);
     free(engine->workers);
+    engine->workers = NULL;
+    pthread_mutex_unlock(&engine->mutex);
 
     return NULL;
 }
@@ -740,29 +748,32 @@ int RKFileManagerStop(RKFileManager *engine) {
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
+    // The workers may be waiting for this
+    pthread_mutex_unlock(&engine->mutex);
     pthread_join(engine->tidFileWatcher, NULL);
     engine->state ^= RKEngineStateDeactivating;
     RKLog("%s Stopped.\n", engine->name);
     if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) {
         RKLog("%s Inconsistent state 0x%04x\n", engine->name, engine->state);
     }
-    pthread_mutex_unlock(&engine->mutex);
     return RKResultSuccess;
 }
 
 int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType type) {
-    RKFileRemover *me = &engine->workers[type];
+    pthread_mutex_lock(&engine->mutex);
 
     if (!(engine->state & RKEngineStateWantActive)) {
+        pthread_mutex_unlock(&engine->mutex);
         return RKResultEngineNotActive;
     }
 
     if (type >= engine->workerCount) {
         RKLog("%s No files of type %u.\n", engine->name, type);
+        pthread_mutex_unlock(&engine->mutex);
         return RKResultFileManagerInconsistentFolder;
     }
 
-    pthread_mutex_lock(&engine->mutex);
+    RKFileRemover *me = &engine->workers[type];
 
     // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
 
-- 
2.43.0


From 0956457893e44117ebacd766eb633810783800b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 131/183] fix: keep the list of folders of the file manager
 within its room

---
 headers/RadarKit/RKFileManager.h |  1 +
 source/RKFileManager.c           | 48 ++++++++++++++++----------------
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/headers/RadarKit/RKFileManager.h b/headers/RadarKit/RKFileManager.h
index 8353f23..ca564dd 100644
--- a/headers/RadarKit/RKFileManager.h
+++ b/headers/RadarKit/RKFileManager.h
@@ -82,6 +82,7 @@ struct rk_file_remover {
     bool                             reusable;
 
     struct timeval                   latestTime;
+    int                              folderCount;                         // Number of *folders in use
 };
 
 struct rk_file_manager {
diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 84cda50..d460b79 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -8,7 +8,7 @@
 
 #include <RadarKit/RKFileManager.h>
 
-#define RKFileManagerFolderListCapacity      60
+#define RKFileManagerFolderListCapacity      3660                      // Ten years of days
 #define RKFileManagerLogFileListCapacity     1000
 
 // The way RadarKit names the files should be relatively short:
@@ -160,6 +160,7 @@ static void refreshFileList(RKFileRemover *me) {
 
     // Go through all folders
     int folderCount = listFoldersInFolder(folders, RKFileManagerFolderListCapacity, me->path);
+    me->folderCount = MAX(folderCount, 0);
     if (folderCount <= 0) {
         me->reusable = true;
         return;
@@ -420,19 +421,16 @@ static void *fileRemover(void *in) {
             }
 
             // Update the index for next check or refresh it entirely if there are too many files
-            me->index++;
-            if (me->index == me->capacity) {
-                me->index = 0;
-                if (me->reusable) {
-                    if (engine->verbose) {
-                        RKLog("%s Reusable file list rotated to 0.\n", me->name);
-                    }
-                } else {
-                    if (engine->verbose) {
-                        RKLog("%s Refreshing file list ...\n", me->name);
-                    }
-                    refreshFileList(me);
+            me->index = RKNextModuloS(me->index, me->capacity);
+            if (me->reusable) {
+                if (me->index == 0 && engine->verbose) {
+                    RKLog("%s Reusable file list rotated to 0.\n", me->name);
+                }
+            } else if (me->index == me->count % me->capacity) {
+                if (engine->verbose) {
+                    RKLog("%s Refreshing file list ...\n", me->name);
                 }
+                refreshFileList(me);
             }
         }
 
@@ -811,20 +809,22 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
 
     strcpy(filenames[k], lastPart + 1);
 
-    int folderId = 0;
     char *folder = engine->scratch;
     snprintf(folder, RKFileManagerFilenameLength, "%.*s", (int)(lastPart - filename - pathLength) - 1, filename + pathLength + 1);
-    if (k == 0) {
-        // The data folder is empty
-        folderId = 0;
-        strcpy(folders[0], folder);
-    } else {
-        folderId = indexedStats[k - 1].folderId;
-        // If same folder as the previous entry, no need to add another folder in the list. Add one otherwise.
-        if (strcmp(folder, folders[indexedStats[k - 1].folderId])) {
-            folderId++;
-            strcpy(folders[indexedStats[k - 1].folderId + 1], folder);
+    // Usually the latest folder. Add one to the list if it is not there, go on without the list if there is no more room
+    int folderId = me->folderCount - 1;
+    while (folderId >= 0 && strcmp(folder, folders[folderId])) {
+        folderId--;
+    }
+    if (folderId < 0) {
+        if (me->folderCount == RKFileManagerFolderListCapacity) {
+            me->reusable = false;
+            me->usage += fileStat.st_size;
+            pthread_mutex_unlock(&engine->mutex);
+            return RKResultFileManagerBufferNotResuable;
         }
+        folderId = me->folderCount++;
+        strcpy(folders[folderId], folder);
     }
     //printf("%s --> %s / %s (%d)\n", filename, folder, filenames[k], folderId);
 
-- 
2.43.0


From a5fe925bea145aeda0cc0c38567f7c6dbd4c911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 132/183] fix: forget no file and name the right one when the
 file list is full or goes around

---
 source/RKFileManager.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index d460b79..449303f 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -188,7 +188,7 @@ static void refreshFileList(RKFileRemover *me) {
         }
         if (count < 0) {
             RKLog("%s Error. Unable to list files in %s\n", me->name, string);
-            return;
+            continue;
         } else if (count == 0) {
             if (isFolderEmpty(string)) {
                 RKLog(">%s Removing %s ...\n", me->name, string);
@@ -219,6 +219,20 @@ static void refreshFileList(RKFileRemover *me) {
     // Sort the files by time
     qsort(indexedStats, me->count, sizeof(RKIndexedStat), struct_cmp_by_time);
 
+    // Names in the same order since new ones take the places of those removed
+    for (k = 0; k < me->count; k++) {
+        RKPathname filename;
+        memcpy(filename, filenames[k], sizeof(RKPathname));
+        for (j = k; indexedStats[j].index != k;) {
+            const int source = indexedStats[j].index;
+            memcpy(filenames[j], filenames[source], sizeof(RKPathname));
+            indexedStats[j].index = j;
+            j = source;
+        }
+        memcpy(filenames[j], filename, sizeof(RKPathname));
+        indexedStats[j].index = j;
+    }
+
     if (me->parent->verbose > 2) {
         RKLog("%s Files (%s):\n", me->name, RKIntegerToCommaStyleString(me->count));
         for (k = 0; k < me->count; k++) {
@@ -807,6 +821,14 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     // Copy over the filename and stats to the internal buffer
     uint32_t k = me->count;
 
+    // Do not take the place of a file that is still there
+    if (RKNextModuloS(me->count, me->capacity) == me->index) {
+        me->reusable = false;
+        me->usage += fileStat.st_size;
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerBufferNotResuable;
+    }
+
     strcpy(filenames[k], lastPart + 1);
 
     char *folder = engine->scratch;
-- 
2.43.0


From 9bdbad4d37d776e18629adb28f3626503c9339ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 133/183] fix: keep logs for more than 68 years if so wanted

---
 source/RKFileManager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 449303f..08a7e53 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -594,7 +594,7 @@ static void *folderWatcher(void *in) {
 
     // Wait here while the engine should stay active
     time_t now;
-    time_t longTime = engine->maximumLogAgeInDays * 86400;
+    time_t longTime = (time_t)engine->maximumLogAgeInDays * 86400;
     while (engine->state & RKEngineStateWantActive) {
         // Take care of super slow changing files, like the daily logs
         time(&now);
-- 
2.43.0


From 62c072a875b2bc2f72282d3c3a8381b70fed0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:03 +0000
Subject: [PATCH 134/183] fix: take a PPI set without azimuth as documented

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1a5c88c..91e73f7 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -182,7 +182,7 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
         response = engine->response;
     }
 
-    if (n < 2) {
+    if (n < 1) {
         sprintf(response, "NAK. Ill-defined PPI array.   n = %d" RKEOL, n);
         return RKResultIncompleteScanDescription;
     }
-- 
2.43.0


From fbf6dd1bb6e24ea8c020cc280758d477370445df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:03 +0000
Subject: [PATCH 135/183] fix: understand no command from an empty text

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 91e73f7..ad96e7e 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -870,7 +870,7 @@ RKSteerCommand RKSteerCommandFromString(const char *string) {
     char token[64];
     int s = sscanf(string, "%63s %*s", token);
     RKSteerCommand type = RKSteerCommandNone;
-    if (s == 0) {
+    if (s < 1) {
         return type;
     } else if (!strcmp(token, "home")) {
         type = RKSteerCommandHome | RKSteerCommandImmediate;
-- 
2.43.0


From 44203a1f6714bb85795b0751656505f8269344d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:03 +0000
Subject: [PATCH 136/183] fix: refuse volume commands that are incomplete or
 too long

---
 source/RKSteerEngine.c | 86 ++++++++++++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 25 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index ad96e7e..8331e5c 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -135,7 +135,7 @@ void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
 
 int RKSteerEngineAddLineupSweep(RKSteerEngine *engine, const RKScanPath scan) {
     RKScanObject *V = &engine->vcpHandle;
-    if (V->inTheHoleCount < RKMaximumScanCount) {
+    if (V->inTheHoleCount < RKMaximumScanCount && V->onDeckCount < RKMaximumScanCount) {
         V->inTheHoleScans[V->inTheHoleCount++] = scan;
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
@@ -150,7 +150,7 @@ int RKSteerEngineAddPinchSweep(RKSteerEngine *engine, const RKScanPath scan) {
     if (V->onDeckCount < RKMaximumScanCount) {
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
-        RKLog("%s Error. Cannot add more scans.  V->onDeckScans = %d\n", engine->name, V->onDeckScans);
+        RKLog("%s Error. Cannot add more scans.  V->onDeckCount = %d\n", engine->name, V->onDeckCount);
         return RKResultTooBig;
     }
     return RKResultSuccess;
@@ -202,9 +202,15 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
         rate = RKDefaultScanSpeed;
     }
 
-    int k = 0;
+    // No room for the rest of a longer set
+    if (strlen(elevations) == 255) {
+        sprintf(response, "NAK. PPI array too long." RKEOL);
+        return RKResultTooBig;
+    }
+
+    int result;
     char *token = strtok(elevations, ",");
-    while (token != NULL && k++ < 100) {
+    while (token != NULL) {
         const int m = sscanf(token, "%f", &elevationStart);
         if (m == 0) {
             sprintf(response, "NAK. Ill-defined PPI component.   m = %d" RKEOL, m);
@@ -215,9 +221,13 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
         RKScanPath scan = RKSteerEngineMakeScanPath(RKScanModePPI, elevationStart, elevationEnd, azimuthStart, azimuthEnd, rate);
 
         if (once) {
-            RKSteerEngineAddPinchSweep(engine, scan);
+            result = RKSteerEngineAddPinchSweep(engine, scan);
         } else{
-            RKSteerEngineAddLineupSweep(engine, scan);
+            result = RKSteerEngineAddLineupSweep(engine, scan);
+        }
+        if (result != RKResultSuccess) {
+            sprintf(response, "NAK. Too many sweeps." RKEOL);
+            return result;
         }
         token = strtok(NULL, ",");
     }
@@ -255,16 +265,21 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
         return RKResultIncompleteScanDescription;
     }
 
+    // No room for the rest of a longer set
+    if (strlen(azimuths) == 255) {
+        sprintf(response, "NAK. RHI array too long." RKEOL);
+        return RKResultTooBig;
+    }
+
     bool flip = false;
 
-    int k = 0;
+    int result;
     char *token = strtok(azimuths, ",");
-    while (token != NULL && k++ < 180) {
+    while (token != NULL) {
         const int o = sscanf(token, "%f", &azimuthStart);
         if (o == 0) {
-            sprintf(response, "NAK. Ill-defined RHI component.   o = %d" RKEOL, m);
+            sprintf(response, "NAK. Ill-defined RHI component.   o = %d" RKEOL, o);
             return RKResultIncompleteScanDescription;
-            break;
         }
 
         RKScanPath scan = flip ?
@@ -272,9 +287,13 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
             RKSteerEngineMakeScanPath(RKScanModeRHI, elevationStart, elevationEnd, azimuthStart, 0, rate);
 
         if (once) {
-            RKSteerEngineAddPinchSweep(engine, scan);
+            result = RKSteerEngineAddPinchSweep(engine, scan);
         } else{
-            RKSteerEngineAddLineupSweep(engine, scan);
+            result = RKSteerEngineAddLineupSweep(engine, scan);
+        }
+        if (result != RKResultSuccess) {
+            sprintf(response, "NAK. Too many sweeps." RKEOL);
+            return result;
         }
         token = strtok(NULL, ",");
         flip = !flip;
@@ -1008,13 +1027,9 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         // vol p 2 45 18/p 4 45 18/p 6 45 18/p 8 45 18/p 10 45 18/p 12 45 18 - PPI set like the pp example
         int k = 0;
         char *saved;
-        char *token = strchr(string, ' ');
-        do {
+        char *token = strstr(string, "vol") + 3;
+        while (*token == ' ') {
             token++;
-        } while (*token == ' ' && k++ < 8);
-        if (*token == ' ') {
-            RKLog("%s Unxpected vol command string\n", engine->name);
-            return RKResultFailedToSetVCP;
         }
         strncpy(engine->scanString, token, RKMaximumStringLength - 1);
 
@@ -1022,7 +1037,16 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
 
         k = 0;
         token = strtok_r(engine->scanString, "/", &saved);
-        while (token != NULL && k++ < 100) {
+        if (token == NULL) {
+            sprintf(response, "NAK. Ill-defined volume." RKEOL);
+            valid = false;
+        }
+        while (token != NULL) {
+            if (k++ == RKMaximumScanCount) {
+                sprintf(response, "NAK. Too many sweeps." RKEOL);
+                valid = false;
+                break;
+            }
             // parse in the usual way
             const int m = sscanf(token, "%3s %255s %255s %255s", symbol, args[0], args[1], args[2]);
             if (m < 2) {
@@ -1041,6 +1065,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
                     mode = RKScanModeSpeedDown;
                 } else {
                     RKLog("%s Error. Scan mode '%s' not understood.\n", engine->name, symbol);
+                    sprintf(response, "NAK. Scan mode '%s' not understood." RKEOL, symbol);
                     valid = false;
                     break;
                 }
@@ -1054,20 +1079,25 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
                 }
                 const int p = sscanf(args[1], "%f,%f", &azimuthStart, &azimuthEnd);
                 if (p < 1) {
-                    sprintf(response, "NAK. Ill-defined volume component.   p = %d" RKEOL, o);
+                    sprintf(response, "NAK. Ill-defined volume component.   p = %d" RKEOL, p);
                     valid = false;
                     break;
                 } else if (p == 1) {
                     azimuthEnd = azimuthStart;
                 }
-                rate = atof(args[2]);
+                rate = m > 3 ? atof(args[2]) : RKDefaultScanSpeed;
 
                 RKScanPath scan = RKSteerEngineMakeScanPath(mode, elevationStart, elevationEnd, azimuthStart, azimuthEnd, rate);
 
                 if (onlyOnce) {
-                    RKSteerEngineAddPinchSweep(engine, scan);
+                    result = RKSteerEngineAddPinchSweep(engine, scan);
                 } else {
-                    RKSteerEngineAddLineupSweep(engine, scan);
+                    result = RKSteerEngineAddLineupSweep(engine, scan);
+                }
+                if (result != RKResultSuccess) {
+                    sprintf(response, "NAK. Too many sweeps." RKEOL);
+                    valid = false;
+                    break;
                 }
             } else if (!strcmp("pp", symbol)) {
                 result = RKSteerEngineAddPPISet(engine, token, onlyOnce, response);
@@ -1075,10 +1105,14 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             } else if (!strcmp("rr", symbol)) {
                 result = RKSteerEngineAddRHISet(engine, token, onlyOnce, response);
                 valid = result == RKResultSuccess;
-            } else if (!strcmp("ss", symbol)) {
-                result = RKResultFailedToExecuteCommand;
+            } else {
+                RKLog("%s Error. Scan mode '%s' not understood.\n", engine->name, symbol);
+                sprintf(response, "NAK. Scan mode '%s' not understood." RKEOL, symbol);
                 valid = false;
             }
+            if (!valid) {
+                break;
+            }
             token = strtok_r(NULL, "/", &saved);
         }
 
@@ -1089,6 +1123,8 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         const float azimuth = CLAMP(atof(args[1]), 0.0f, 360.0f);
         if (n != 2) {
             RKLog("%s Expected two arguments for point.   n = %d\n", engine->name, n);
+            sprintf(response, "NAK. Expected two arguments for point." RKEOL);
+            return RKResultIncompleteScanDescription;
         }
         RKScanPath scan = RKSteerEngineMakeScanPath(RKScanModePoint, elevation, elevation, azimuth, azimuth, NAN);
         RKSteerEngineAddPinchSweep(engine, scan);
-- 
2.43.0


From ba974c49a9b2feea373a3af69a09655ff5a9a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 137/183] fix: keep the summary of a long volume within the
 response

---
 headers/RadarKit/RKSteerEngine.h |  2 +-
 source/RKSteerEngine.c           | 37 +++++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/headers/RadarKit/RKSteerEngine.h b/headers/RadarKit/RKSteerEngine.h
index fa31b0a..9b39b2b 100644
--- a/headers/RadarKit/RKSteerEngine.h
+++ b/headers/RadarKit/RKSteerEngine.h
@@ -147,7 +147,7 @@ struct rk_position_steer_engine {
     int                    actionIndex;
     char                   scanString[RKMaximumStringLength];
     char                   response[RKMaximumStringLength];
-    char                   dump[RKMaximumStringLength];
+    char                   dump[4 * RKMaximumStringLength];
     pthread_t              threadId;
 
     // Status / health
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 8331e5c..457caec 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -29,7 +29,7 @@ static void RKSteerEngineUpdateStatusString(RKSteerEngine *engine) {
 
     RKScanAction *action = &engine->actions[engine->actionIndex];
 
-    sprintf(string, "%s%s%s %08d   %sEL%s %6.2f° @ %+5.1f°/s [%6.2f°]   %sAZ%s %6.2f @ %+5.1f°/s [%6.2f]   %s%s%s   %s%s%s",
+    snprintf(string, RKStatusStringLength, "%s%s%s %08d   %sEL%s %6.2f° @ %+5.1f°/s [%6.2f°]   %sAZ%s %6.2f @ %+5.1f°/s [%6.2f]   %s%s%s   %s%s%s",
         V->progress & RKScanProgressSetup  ? (rkGlobalParameters.showColor ? RKMonokaiOrange "S" RKNoColor : "S") : ".",
         V->progress & RKScanProgressMiddle ? "m" : ".",
         V->progress & RKScanProgressEnd    ? (rkGlobalParameters.showColor ? RKMonokaiGreen "E" RKNoColor : "E") : ".",
@@ -978,7 +978,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             return RKResultSuccess;
             break;
         case RKSteerCommandNone:
-            sprintf(response, "NAK. Command '%s' not understood. Ask my father." RKEOL, string);
+            sprintf(response, "NAK. Command '%.256s' not understood. Ask my father." RKEOL, string);
             return RKResultFailedToExecuteCommand;
             break;
         default:
@@ -993,7 +993,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             RKSteerEngineSetScanRepeat(engine, true);
         }
     } else {
-        sprintf(response, "NAK. Command '%s' not understood. Ask my father." RKEOL, string);
+        sprintf(response, "NAK. Command '%.256s' not understood. Ask my father." RKEOL, string);
         RKLog("%s Non-motion commands should not be here.\n", engine->name);
         return RKResultFailedToExecuteCommand;
     }
@@ -1187,8 +1187,11 @@ static char *scanModeString(const RKScanMode mode) {
     return "NAN";
 }
 
-static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int count, const RKScanHitter linetag) {
+// Produces whole lines only, as many as size can hold
+static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const size_t size, const int count, const RKScanHitter linetag) {
     size_t k = 0;
+    size_t s;
+    char line[RKMaximumStringLength];
     char prefix[8];
     switch (linetag){
         case RKScanAtBat:
@@ -1227,7 +1230,7 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
     // Second pass, actually print it out using the consitent column width
     for (int i = 0; i < count; i++) {
-        k += sprintf(string + k, "%-7s %d : %s%s%s",
+        s = sprintf(line, "%-7s %d : %s%s%s",
                      prefix,
                      i,
                      rkGlobalParameters.statusColor ? RKMonokaiPink : "",
@@ -1236,14 +1239,14 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
         switch (scanPaths[i].mode) {
             case RKScanModePPI:
                 sprintf(format, " EL %%%d.1f°   AZ %%%d.1f°   @ %%%d.1f°/s\n", es, ae, av);
-                k += sprintf(string + k, format,
+                s += sprintf(line + s, format,
                              scanPaths[i].elevationStart,
                              scanPaths[i].azimuthEnd,
                              scanPaths[i].azimuthSlew);
                 break;
             case RKScanModeRHI:
                 sprintf(format, " AZ %%%d.1f°   EZ %%%d.1f°-%%%d.1f°   @ %%%d.1f°/s\n", as, es, ee, ev);
-                k += sprintf(string + k, format,
+                s += sprintf(line + s, format,
                              scanPaths[i].azimuthStart,
                              scanPaths[i].elevationStart,
                              scanPaths[i].elevationEnd,
@@ -1251,25 +1254,30 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
                 break;
             case RKScanModeSector:
                 sprintf(format, " EL %%%d.1f°   AZ %%%d.1f°-%%%d.1f°   @ %%%d.1f°/s\n", es, as, ae, av);
-                k += sprintf(string + k, format,
+                s += sprintf(line + s, format,
                              scanPaths[i].elevationStart,
                              scanPaths[i].azimuthStart,
                              scanPaths[i].azimuthEnd,
                              scanPaths[i].azimuthSlew);
                 break;
             case RKScanModePoint:
-                k += sprintf(string + k, " EL %.1f°   AZ %.1f°\n",
+                s += sprintf(line + s, " EL %.1f°   AZ %.1f°\n",
                              scanPaths[i].elevationStart,
                              scanPaths[i].azimuthStart);
                 break;
             default:
-                k += sprintf(string + k, " EL %.1f° / %.1f°   AZ %.1f° / %.1f°\n",
+                s += sprintf(line + s, " EL %.1f° / %.1f°   AZ %.1f° / %.1f°\n",
                              scanPaths[i].elevationStart,
                              scanPaths[i].elevationEnd,
                              scanPaths[i].azimuthStart,
                              scanPaths[i].azimuthEnd);
                 break;
         }
+        if (k + s >= size) {
+            break;
+        }
+        memcpy(string + k, line, s + 1);
+        k += s;
     }
     return k;
 }
@@ -1277,12 +1285,15 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
 size_t RKSteerEngineScanSummary(RKSteerEngine *engine, char *string) {
     RKScanObject *V = &engine->vcpHandle;
-    size_t s = makeSweepMessage(V->batterScans, string, V->sweepCount, RKScanAtBat);
+    // Leave some room for what comes before and after the summary in a response
+    const size_t size = RKMaximumStringLength - 512;
+    *string = '\0';
+    size_t s = makeSweepMessage(V->batterScans, string, size, V->sweepCount, RKScanAtBat);
     if (V->onDeckCount != V->inTheHoleCount || memcmp(V->onDeckScans, V->inTheHoleScans, RKMaximumScanCount * sizeof(RKScanPath))) {
-        s += makeSweepMessage(V->onDeckScans, string + s, V->onDeckCount, RKScanPinch);
+        s += makeSweepMessage(V->onDeckScans, string + s, size - s, V->onDeckCount, RKScanPinch);
     }
     if (V->option & RKScanOptionRepeat) {
-        s += makeSweepMessage(V->inTheHoleScans, string + s, V->inTheHoleCount, RKScanLine);
+        s += makeSweepMessage(V->inTheHoleScans, string + s, size - s, V->inTheHoleCount, RKScanLine);
     }
     if (V->sweepCount == 0 && V->onDeckCount == 0 && V->inTheHoleCount == 0) {
         s = sprintf(string, "(empty)\n");
-- 
2.43.0


From cfb963605fd379c7527fee550c35dce22e089077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 138/183] fix: compare the scans in use only to tell a pinch
 hitter

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 457caec..d486707 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1289,7 +1289,7 @@ size_t RKSteerEngineScanSummary(RKSteerEngine *engine, char *string) {
     const size_t size = RKMaximumStringLength - 512;
     *string = '\0';
     size_t s = makeSweepMessage(V->batterScans, string, size, V->sweepCount, RKScanAtBat);
-    if (V->onDeckCount != V->inTheHoleCount || memcmp(V->onDeckScans, V->inTheHoleScans, RKMaximumScanCount * sizeof(RKScanPath))) {
+    if (V->onDeckCount != V->inTheHoleCount || memcmp(V->onDeckScans, V->inTheHoleScans, V->onDeckCount * sizeof(RKScanPath))) {
         s += makeSweepMessage(V->onDeckScans, string + s, size - s, V->onDeckCount, RKScanPinch);
     }
     if (V->option & RKScanOptionRepeat) {
-- 
2.43.0


From 21b5f9d679fb393f513260e13333d2850173ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 139/183] fix: leave the scans alone when a volume command is
 refused

---
 source/RKSteerEngine.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index d486707..7bbfb66 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -941,7 +941,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
     // RKLog("%s Interpreted %s\n", engine->name, RKVariableInString("command", &command, RKValueTypeInt32InHex));
 
     int s;
-    int result;
+    int result = RKResultSuccess;
     float azimuthStart, azimuthEnd, elevationStart, elevationEnd, rate;
 
     bool valid = true;
@@ -985,6 +985,9 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             break;
     }
 
+    // What to go back to if the command is refused
+    const RKScanObject saved = engine->vcpHandle;
+
     // The rest of the function assumes a scan / volume will be created
     if (RKSteerCommandIsMotion(command)) {
         if (motion == RKSteerCommandPoint) {
@@ -1010,17 +1013,13 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
 
         // pp 2,4,6,8,10 45 18 - PPI at elevations [2, 4, 6, 8, 10] degs, azimuth 45, speed 18 deg/s
         result = RKSteerEngineAddPPISet(engine, string, onlyOnce, response);
-        if (result != RKResultSuccess) {
-            return result;
-        }
+        valid = result == RKResultSuccess;
 
     } else if (motion == RKSteerCommandRHISet) {
 
         // rr 0,20 10,20,30 10 - RHI at elevations [0, 20] degs, azimuths [10, 20, 30], speed 10 deg/s
         result = RKSteerEngineAddRHISet(engine, string, onlyOnce, response);
-        if (result != RKResultSuccess) {
-            return result;
-        }
+        valid = result == RKResultSuccess;
 
     } else if (motion == RKSteerCommandVolume) {
 
@@ -1124,7 +1123,8 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         if (n != 2) {
             RKLog("%s Expected two arguments for point.   n = %d\n", engine->name, n);
             sprintf(response, "NAK. Expected two arguments for point." RKEOL);
-            return RKResultIncompleteScanDescription;
+            result = RKResultIncompleteScanDescription;
+            valid = false;
         }
         RKScanPath scan = RKSteerEngineMakeScanPath(RKScanModePoint, elevation, elevation, azimuth, azimuth, NAN);
         RKSteerEngineAddPinchSweep(engine, scan);
@@ -1139,7 +1139,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
     } else {
 
         sprintf(response, "NAK. Nothing. Ask my father." RKEOL);
-        return RKResultFailedToSetVCP;
+        valid = false;
 
     }
 
@@ -1165,7 +1165,19 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             sprintf(response + s, "ACK. Volume in queue." RKEOL);
         }
     } else {
-        return RKResultFailedToSetVCP;
+        // Keep going with what was there before
+        RKScanObject *V = &engine->vcpHandle;
+        memcpy(V->onDeckScans, saved.onDeckScans, sizeof(V->onDeckScans));
+        memcpy(V->inTheHoleScans, saved.inTheHoleScans, sizeof(V->inTheHoleScans));
+        V->onDeckCount = saved.onDeckCount;
+        V->inTheHoleCount = saved.inTheHoleCount;
+        V->option = saved.option;
+        if (immediatelyDo) {
+            V->progress = saved.progress;
+            V->i = saved.i;
+            V->sweepCount = saved.sweepCount;
+        }
+        return result == RKResultSuccess ? RKResultFailedToSetVCP : result;
     }
 
     return RKResultSuccess;
-- 
2.43.0


From 1dd28a9dcb4c9d1a6436c0bfd88a2c620215d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 140/183] fix: set up for the first sweep when the scan
 advances to the next volume

---
 source/RKSteerEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 7bbfb66..97f9b48 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -974,6 +974,10 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             break;
         case RKSteerCommandScanNext:
             RKSteerEngineNextHitter(engine);
+            engine->vcpHandle.progress = RKScanProgressNone;
+            if (engine->vcpHandle.sweepCount == 0) {
+                RKSteerEngineStopSweeps(engine);
+            }
             sprintf(response, "ACK. Volume advanced." RKEOL);
             return RKResultSuccess;
             break;
-- 
2.43.0


From 23e5282cd1b84d29735327190a5f6449575ec9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 141/183] fix: stop the pedestal when there are no more sweeps
 to do

---
 source/RKSteerEngine.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 97f9b48..44c59d1 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -553,6 +553,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     float udaz = 0.0f;
 
     bool cross = false;
+    bool stop = false;
 
     if (V->active == false || V->sweepCount == 0) {
         if (V->progress & RKScanProgressStopPedestal) {
@@ -865,16 +866,27 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
         if (V->i == 0) {
             if (V->option & RKScanOptionRepeat) {
                 RKSteerEngineNextHitter(engine);
-                RKLog("%s VCP repeats.\n", engine->name);
+                if (V->sweepCount == 0) {
+                    RKLog("%s VCP stops.\n", engine->name);
+                    stop = true;
+                } else {
+                    RKLog("%s VCP repeats.\n", engine->name);
+                }
             } else {
                 RKLog("%s VCP stops.\n", engine->name);
                 if (V->sweepCount == 1 && V->batterScans[0].mode == RKScanModePoint) {
                     RKSteerEngineClearSweeps(engine);
+                    V->active = false;
+                } else {
+                    stop = true;
                 }
-                V->active = false;
             }
         }
-        V->progress |= RKScanProgressSetup;
+        if (stop) {
+            RKSteerEngineStopSweeps(engine);
+        } else {
+            V->progress |= RKScanProgressSetup;
+        }
     }
 
     engine->actionIndex = RKNextModuloS(engine->actionIndex, RKPedestalActionBufferDepth);
-- 
2.43.0


From 9609345b2b8b59638c03adb3683ba9cec8da0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 142/183] fix: stop the axes that are about to move as well

---
 source/RKSteerEngine.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 44c59d1..9216a39 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -558,17 +558,12 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     if (V->active == false || V->sweepCount == 0) {
         if (V->progress & RKScanProgressStopPedestal) {
             RKLog("%s Stopping pedestal ...\n", engine->name);
-            if (fabs(pos->elevationVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-                action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
-                action->value[a] = 0.0f;
-                V->tic = 0;
-                a++;
-            }
-            if (fabs(pos->azimuthVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-                action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
-                action->value[a] = 0.0f;
-                V->tic = 0;
-            }
+            // Both axes, one that was just told to go may not have started to move
+            action->mode[0] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
+            action->value[0] = 0.0f;
+            action->mode[1] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
+            action->value[1] = 0.0f;
+            V->tic = 0;
             V->progress ^= RKScanProgressStopPedestal;
             V->progress = RKScanProgressNone;
         }
-- 
2.43.0


From 3cf7dc15f8e2f24c835707e98eadadd95ae51cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 143/183] fix: start the sweeps even if the pedestal has yet to
 stop

---
 source/RKSteerEngine.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 9216a39..4ca3b0c 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -92,6 +92,9 @@ void RKSteerEngineStopSweeps(RKSteerEngine *engine) {
 }
 
 void RKSteerEngineStartSweeps(RKSteerEngine *engine) {
+    if (engine->vcpHandle.progress & RKScanProgressStopPedestal) {
+        engine->vcpHandle.progress = RKScanProgressNone;
+    }
     engine->vcpHandle.active = true;
 }
 
-- 
2.43.0


From 3fa3d507b564e63f41b55fea62b0fd3f5645fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 144/183] fix: do not end a sector or RHI sweep on the way to
 its start

---
 source/RKSteerEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 4ca3b0c..e9f2b9d 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -883,6 +883,10 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
         if (stop) {
             RKSteerEngineStopSweeps(engine);
         } else {
+            // Only a PPI collects data on the way to its elevation
+            if (V->batterScans[V->i].mode != RKScanModePPI) {
+                V->progress &= ~RKScanProgressMiddle;
+            }
             V->progress |= RKScanProgressSetup;
         }
     }
-- 
2.43.0


From 9ac612b3f378c7276a9f200b5654b24232b8b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 145/183] fix: hold the other axis when a sector or RHI sweep
 begins

---
 source/RKSteerEngine.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index e9f2b9d..c77bf61 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -643,6 +643,11 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     V->tic = 0;
                 }
                 if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                    if (a == 0) {
+                        // The azimuth may still need to stop
+                        action->mode[1] = action->mode[0];
+                        action->value[1] = action->value[0];
+                    }
                     action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisElevation;
                     action->value[0] = scan->elevationSlew;
                     V->tic = 0;
@@ -730,8 +735,8 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     V->tic = 0;
                 }
                 if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
-                    action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
-                    action->value[0] = scan->azimuthSlew;
+                    action->mode[a] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
+                    action->value[a] = scan->azimuthSlew;
                     V->tic = 0;
                     if (verbose) {
                         RKLog("%s Info. Ready for SEC sweep %d - EL %.1f° @ crossover AZ %.1f°\n", engine->name,
-- 
2.43.0


From 8c88a03b3b3a1d8a8da8d2f545abbb81e1a8ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 146/183] fix: follow the positions around their own buffer in
 the steer engine

---
 source/RKSteerEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index c77bf61..f85a48e 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -368,7 +368,7 @@ static void *steerer(void *_in) {
             theta = new->timeDouble - old->timeDouble;
             rate = (float)(engine->radarDescription->positionBufferDepth / 8) / theta;
             s = (int)ceilf(RKPedestalActionPeriod * rate);
-            if (engine->vcpHandle.toc != s) {
+            if (theta > 0.0f && engine->vcpHandle.toc != s) {
                 engine->vcpHandle.toc = s;
                 RKLog("%s Position rate = %.1f Hz   toc -> %d\n", engine->name, rate, s);
             }
@@ -391,7 +391,7 @@ static void *steerer(void *_in) {
         }
 
         // Update k to catch up for the next watch
-        k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
+        k = RKNextModuloS(k, engine->radarDescription->positionBufferDepth);
     }
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0


From 5f980a18289e7a1ee3d3e2a642044a12a03dc5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:56 +0000
Subject: [PATCH 147/183] fix: never go to an elevation through the ground

---
 source/RKSteerEngine.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index f85a48e..299954e 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -86,6 +86,11 @@ float RKSteerEngineGetRate(const float delta, RKPedestalAxis axis) {
     return delta < 0.0f ? -rate : rate;
 }
 
+// Elevation goes over the top, not under the ground: -90 to 270 degrees
+static float RKSteerEngineElevationDiff(const float to, const float from) {
+    return (to > 270.0f ? to - 360.0f : to) - (from > 270.0f ? from - 360.0f : from);
+}
+
 void RKSteerEngineStopSweeps(RKSteerEngine *engine) {
     engine->vcpHandle.progress = RKScanProgressStopPedestal;
     engine->vcpHandle.active = false;
@@ -613,7 +618,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
         switch (scan->mode) {
             case RKScanModeRHI:
             case RKScanModeSpeedDown:
-                del = RKMinDiff(scan->elevationStart, pos->elevationDegrees);
+                del = RKSteerEngineElevationDiff(scan->elevationStart, pos->elevationDegrees);
                 daz = RKMinDiff(scan->azimuthStart, pos->azimuthDegrees);
                 udel = fabs(del);
                 udaz = fabs(daz);
@@ -660,7 +665,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                 }
                 break;
             case RKScanModePPI:
-                del = RKMinDiff(scan->elevationStart, pos->elevationDegrees);
+                del = RKSteerEngineElevationDiff(scan->elevationStart, pos->elevationDegrees);
                 udel = fabs(del);
                 if (udel >= RKPedestalPositionTolerance) {
                     if (engine->vcpHandle.option & RKScanOptionUsePoint) {
@@ -705,7 +710,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                 }
                 break;
             case RKScanModeSector:
-                del = RKMinDiff(scan->elevationStart, pos->elevationDegrees);
+                del = RKSteerEngineElevationDiff(scan->elevationStart, pos->elevationDegrees);
                 daz = RKMinDiff(scan->azimuthStart, pos->azimuthDegrees);
                 udel = fabs(del);
                 udaz = fabs(daz);
@@ -747,7 +752,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                 }
                 break;
             case RKScanModePoint:
-                del = RKMinDiff(scan->elevationStart, pos->elevationDegrees);
+                del = RKSteerEngineElevationDiff(scan->elevationStart, pos->elevationDegrees);
                 daz = RKMinDiff(scan->azimuthStart, pos->azimuthDegrees);
                 udel = fabs(del);
                 udaz = fabs(daz);
-- 
2.43.0


From 20a0c631988a5487e8296a6112366fbae618ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:58 +0000
Subject: [PATCH 148/183] fix: send the controls in the packet of controls

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index f7f118f..7a7460e 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -730,7 +730,7 @@ int socketStreamHandler(RKOperator *O) {
             RKMakeJSONStringFromControls(user->scratch, user->radar->controls, user->radar->controlCount);
             //j += sprintf(user->string + j, "\"Controls\": [%s]}" RKEOL, user->scratch);
             j += snprintf(user->string + j, RKMaximumPacketSize - j, "\"Controls\": [");
-            strncpy(user->string + j, user->scratch, RKMaximumPacketSize - 16 - j);
+            j += snprintf(user->string + j, RKMaximumPacketSize - 16 - j, "%s", user->scratch);
             j += snprintf(user->string + j, RKMaximumPacketSize - j, "]}" RKEOL);
             O->delimTx.type = RKNetworkPacketTypeControls;
             O->delimTx.size = j;
-- 
2.43.0


From 197ed7b42d678dd3f2399253a9680a04c56db536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 149/183] fix: stay within the samples of a pulse in the
 A-scope stream

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 7a7460e..ac1b28a 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1466,7 +1466,7 @@ int socketStreamHandler(RKOperator *O) {
 
                 default:
                     // I/Q data from Int16C samples
-                    pulseHeader.gateCount = MIN(4096, pulseHeader.pulseWidthSampleCount + 10);
+                    pulseHeader.gateCount = MIN(MIN(4096, pulseHeader.pulseWidthSampleCount + 10), pulseHeader.gateCount);
                     for (i = 0; i < pulseHeader.gateCount; i++) {
                         *userDataH++ = *c16DataH;
                         *userDataV++ = *c16DataV;
-- 
2.43.0


From d9bf3ab03076c6c8a811f5b3d03fbb42a9685660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 150/183] fix: send every k-th sample of a down-sampled A-scope
 stream

---
 source/RKCommandCenter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index ac1b28a..059bc2d 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1456,11 +1456,13 @@ int socketStreamHandler(RKOperator *O) {
                     scale = 1.0f / sqrtf((float)user->radar->pulseEngine->filterAnchors[0][0].length);
                     yH = RKGetComplexDataFromPulse(pulse, 0);
                     yV = RKGetComplexDataFromPulse(pulse, 1);
-                    for (i = 0; i < pulseHeader.downSampledGateCount; i++) {
+                    for (i = 0; i < pulseHeader.gateCount; i++) {
                         userDataH->i   = (int16_t)(scale * yH->i);
-                        userDataH++->q = (int16_t)(scale * yH++->q);
+                        userDataH++->q = (int16_t)(scale * yH->q);
                         userDataV->i   = (int16_t)(scale * yV->i);
-                        userDataV++->q = (int16_t)(scale * yV++->q);
+                        userDataV++->q = (int16_t)(scale * yV->q);
+                        yH += k;
+                        yV += k;
                     }
                     break;
 
-- 
2.43.0


From 98dd079d16478102002969aae505aa1ce5a8e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 151/183] fix: begin a stream with the first payload that is
 ready

---
 source/RKCommandCenter.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 059bc2d..63e5972 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -760,7 +760,6 @@ int socketStreamHandler(RKOperator *O) {
     if (user->streams & user->access & RKStreamStatusProcessorStatus) {
         endIndex = RKPreviousModuloS(user->radar->statusIndex, user->radar->desc.statusBufferDepth);
         if (!(user->streamsInProgress & RKStreamStatusProcessorStatus)) {
-            user->streamsInProgress |= RKStreamStatusProcessorStatus;
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKStatus -> %d (0x%x %s).\n", engine->name, O->name, endIndex,
                       user->radar->status[endIndex].flag,
@@ -776,6 +775,7 @@ int socketStreamHandler(RKOperator *O) {
             usleep(50000);
         }
         if (user->radar->status[user->statusIndex].flag == RKStatusFlagReady && engine->server->state == RKServerStateActive) {
+            user->streamsInProgress |= RKStreamStatusProcessorStatus;
             while (user->statusIndex != endIndex) {
                 O->delimTx.type = RKNetworkPacketTypeProcessorStatus;
                 O->delimTx.size = (uint32_t)sizeof(RKStatus);
@@ -792,7 +792,6 @@ int socketStreamHandler(RKOperator *O) {
     if (user->streams & user->access & RKStreamHealthInJSON) {
         endIndex = RKPreviousModuloS(user->radar->healthIndex, user->radar->desc.healthBufferDepth);
         if (!(user->streamsInProgress & RKStreamHealthInJSON)) {
-            user->streamsInProgress |= RKStreamHealthInJSON;
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKHealth -> %d (0x%x %s).\n", engine->name, O->name, endIndex,
                       user->radar->healths[endIndex].flag,
@@ -808,6 +807,7 @@ int socketStreamHandler(RKOperator *O) {
             usleep(50000);
         }
         if (user->radar->healths[user->healthIndex].flag == RKHealthFlagReady && engine->server->state == RKServerStateActive) {
+            user->streamsInProgress |= RKStreamHealthInJSON;
             j = 0;
             k = 0;
             while (user->healthIndex != endIndex && k < RKMaximumStringLength - 200) {
@@ -840,7 +840,6 @@ int socketStreamHandler(RKOperator *O) {
         ray = RKGetRayFromBuffer(user->radar->rays, endIndex);
 
         if (!(user->streamsInProgress & RKStreamProductAll)) {
-            user->streamsInProgress |= (user->streams & RKStreamProductAll);
             user->rayIndex = endIndex;
             s = 0;
             while (!(ray->header.s & RKRayStatusReady) && engine->server->state == RKServerStateActive && s++ < 20) {
@@ -849,6 +848,9 @@ int socketStreamHandler(RKOperator *O) {
                 }
                 usleep(50000);
             }
+            if (ray->header.s & RKRayStatusReady) {
+                user->streamsInProgress |= (user->streams & RKStreamProductAll);
+            }
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKRay products -> %d (%s).\n", engine->name, O->name, endIndex,
                       ray->header.s & RKRayStatusReady ? "ready" : "not ready");
@@ -973,7 +975,6 @@ int socketStreamHandler(RKOperator *O) {
         ray = RKGetRayFromBuffer(user->radar->rays, endIndex);
 
         if (!(user->streamsInProgress & RKStreamDisplayZVWDPRKS)) {
-            user->streamsInProgress |= (user->streams & RKStreamDisplayZVWDPRKS);
             user->rayIndex = endIndex;
             s = 0;
             while (!(ray->header.s & RKRayStatusReady) && engine->server->state == RKServerStateActive && s++ < 20) {
@@ -982,6 +983,9 @@ int socketStreamHandler(RKOperator *O) {
                 }
                 usleep(50000);
             }
+            if (ray->header.s & RKRayStatusReady) {
+                user->streamsInProgress |= (user->streams & RKStreamDisplayZVWDPRKS);
+            }
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKRay displays -> %d (0x%02x %s).\n", engine->name, O->name, endIndex,
                       ray->header.s, ray->header.s & RKRayStatusReady ? "ready" : "not ready");
-- 
2.43.0


From d05da27b960682db04894014f4f098bd2a14904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 152/183] fix: end a long text of health like a short one

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 63e5972..afc23cd 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -818,7 +818,7 @@ int socketStreamHandler(RKOperator *O) {
             }
             if (j) {
                 // Take out the last '\n', replace it with somethign else + EOL
-                snprintf(user->string + k - 1, RKMaximumStringLength - k, "" RKEOL);
+                snprintf(user->string + k - 1, RKMaximumPacketSize - k, "" RKEOL);
                 O->delimTx.type = RKNetworkPacketTypeHealth;
                 O->delimTx.size = k;
                 RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
-- 
2.43.0


From 8568f887380a920cba0321ea54d02c6c5880f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:24 +0000
Subject: [PATCH 153/183] fix: send all the display products that the header of
 a ray lists

---
 source/RKCommandCenter.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index afc23cd..bf22565 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -957,7 +957,7 @@ int socketStreamHandler(RKOperator *O) {
                       engine->name, O->name, user->streamsInProgress);
             }
         }
-    } else if (user->streams & user->access & RKStreamDisplayZVWDPRKS) {
+    } else if (user->streams & user->access & RKStreamDisplayAll) {
         #pragma mark Display Streams
         // Display streams - no skipping
         if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
@@ -974,7 +974,7 @@ int socketStreamHandler(RKOperator *O) {
         }
         ray = RKGetRayFromBuffer(user->radar->rays, endIndex);
 
-        if (!(user->streamsInProgress & RKStreamDisplayZVWDPRKS)) {
+        if (!(user->streamsInProgress & RKStreamDisplayAll)) {
             user->rayIndex = endIndex;
             s = 0;
             while (!(ray->header.s & RKRayStatusReady) && engine->server->state == RKServerStateActive && s++ < 20) {
@@ -984,7 +984,7 @@ int socketStreamHandler(RKOperator *O) {
                 usleep(50000);
             }
             if (ray->header.s & RKRayStatusReady) {
-                user->streamsInProgress |= (user->streams & RKStreamDisplayZVWDPRKS);
+                user->streamsInProgress |= (user->streams & RKStreamDisplayAll);
             }
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKRay displays -> %d (0x%02x %s).\n", engine->name, O->name, endIndex,
@@ -1031,7 +1031,7 @@ int socketStreamHandler(RKOperator *O) {
                 if (user->streams & RKStreamDisplaySv) {
                     rayHeaderV1.baseProductList |= RKBaseProductListUInt8Sv;
                 }
-                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPR;
+                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPRKSQ;
                 uint32_t displayCount = __builtin_popcount(displayList);
                 //RKLog("displayCount = %d / %x\n", productCount, productList);
 
@@ -1064,15 +1064,15 @@ int socketStreamHandler(RKOperator *O) {
                     } else if (displayList & RKBaseProductListUInt8K) {
                         displayList ^= RKBaseProductListUInt8K;
                         u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexK);
-                    } else if (displayList & RKBaseProductListUInt8Q) {
-                        displayList ^= RKBaseProductListUInt8Q;
-                        u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexQ);
                     } else if (displayList & RKBaseProductListUInt8Sh) {
                         displayList ^= RKBaseProductListUInt8Sh;
                         u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSh);
                     } else if (displayList & RKBaseProductListUInt8Sv) {
                         displayList ^= RKBaseProductListUInt8Sv;
                         u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSv);
+                    } else if (displayList & RKBaseProductListUInt8Q) {
+                        displayList ^= RKBaseProductListUInt8Q;
+                        u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexQ);
                     } else {
                         u8Data = NULL;
                     }
@@ -1093,7 +1093,7 @@ int socketStreamHandler(RKOperator *O) {
                       engine->name, O->name, user->rayIndex, endIndex, ray->header.i);
             }
         } // if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) ...
-    } // else if if (user->streams & user->access & RKStreamDisplayZVWDPRKS) ...
+    } // else if if (user->streams & user->access & RKStreamDisplayAll) ...
 
     // Sweep
     #pragma mark Sweep
-- 
2.43.0


From 704c97c20ed752df377240c18dfc61cabbd72e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:56 +0000
Subject: [PATCH 154/183] fix: send the products of a ray with the header of
 that ray

---
 source/RKCommandCenter.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index bf22565..c381809 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -899,12 +899,12 @@ int socketStreamHandler(RKOperator *O) {
                 uint32_t productCount = __builtin_popcount(productList);
                 //RKLog("ProductCount = %d / %x\n", productCount, productList);
 
-                rayHeader.gateCount /= user->rayDownSamplingRatio;
-                rayHeader.gateSizeMeters *= (float)user->rayDownSamplingRatio;
+                rayHeaderV1.gateCount /= user->rayDownSamplingRatio;
+                rayHeaderV1.gateSizeMeters *= (float)user->rayDownSamplingRatio;
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
-                O->delimTx.size = (uint32_t)(sizeof(RKRayHeader) + productCount * rayHeader.gateCount * sizeof(float));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
+                O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + productCount * rayHeaderV1.gateCount * sizeof(float));
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
 
                 for (j = 0; j < productCount; j++) {
                     if (productList & RKBaseProductListFloatZ) {
@@ -928,24 +928,24 @@ int socketStreamHandler(RKOperator *O) {
                     } else if (productList & RKBaseProductListFloatK) {
                         productList ^= RKBaseProductListFloatK;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexK);
-                    } else if (productList & RKBaseProductListFloatQ) {
-                        productList ^= RKBaseProductListFloatK;
-                        f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexQ);
                     } else if (productList & RKBaseProductListFloatSh) {
                         productList ^= RKBaseProductListFloatSh;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexSh);
                     } else if (productList & RKBaseProductListFloatSv) {
                         productList ^= RKBaseProductListFloatSv;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexSv);
+                    } else if (productList & RKBaseProductListFloatQ) {
+                        productList ^= RKBaseProductListFloatQ;
+                        f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexQ);
                     } else {
                         f32Data = NULL;
                     }
                     if (f32Data) {
                         float *lowRateData = (float *)user->string;
-                        for (i = 0, k = 0; i < rayHeader.gateCount; i++, k += user->rayDownSamplingRatio) {
+                        for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = f32Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeader.gateCount * sizeof(float), NULL);
+                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(float), NULL);
                     }
                 }
                 ray->header.s |= RKRayStatusStreamed;
-- 
2.43.0


From 1453741d893373f6e1ea5e57daec2f2a30f8bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:36 +0000
Subject: [PATCH 155/183] fix: keep the other streams in progress when a status
 stream begins

---
 source/RKCommandCenter.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index c381809..41bc5ac 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -472,7 +472,7 @@ int socketStreamHandler(RKOperator *O) {
         k = user->streams & user->access & RKStreamStatusMask;
         if (k == RKStreamStatusPositions) {
             // Stream "0" - Positions
-            user->streamsInProgress = RKStreamStatusPositions;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
             if (user->radar->positionEngine) {
                 k = snprintf(user->string, RKMaximumStringLength, "%s" RKEOL,
                              RKPositionEnginePositionString(user->radar->positionEngine));
@@ -486,7 +486,7 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusPulses) {
             // Stream "1" - Pulses
-            user->streamsInProgress = RKStreamStatusPulses;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
             k = snprintf(user->string, RKMaximumPacketSize, "%s" RKEOL,
                          RKPulseEnginePulseString(user->radar->pulseEngine));
             O->delimTx.type = RKNetworkPacketTypePlainText;
@@ -496,7 +496,7 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusRays) {
             // Stream "2" - Rays (no skipping)
-            user->streamsInProgress = RKStreamStatusRays;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
             j = 0;
             k = 0;
             endIndex = RKPreviousModuloS(user->radar->momentEngine->rayStatusBufferIndex, RKBufferSSlotCount);
@@ -517,7 +517,7 @@ int socketStreamHandler(RKOperator *O) {
             }
         } else if (k == RKStreamStatusIngest) {
             // Stream "3" - Overall status
-            user->streamsInProgress = RKStreamStatusIngest;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
             k = snprintf(user->string, RKMaximumPacketSize, "%s %s %s %s %s" RKEOL,
                          RKPulseEngineStatusString(user->radar->pulseEngine),
                          RKPulseRingFilterEngineStatusString(user->radar->pulseRingFilterEngine),
@@ -531,7 +531,7 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusEngines) {
             // Stream "4" - Engine status
-            user->streamsInProgress = RKStreamStatusEngines;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
             if (user->ticForStatusStream % 20 == 0) {
                 char spacer[64];
                 sprintf(spacer, "%s | %s",
@@ -576,7 +576,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamStatusBuffers) {
             // Stream "5" - Buffer overview
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamStatusBuffers) {
-                user->streamsInProgress = RKStreamStatusBuffers;
+                user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
                 k = RKBufferOverview(user->string, user->radar, user->textPreferences | RKTextPreferencesDrawBackground);
             } else {
                 k = RKBufferOverview(user->string, user->radar, user->textPreferences);
@@ -595,7 +595,7 @@ int socketStreamHandler(RKOperator *O) {
             // Stream "6" - ASCII art of reflectivity
             ray = RKGetLatestRayIndex(user->radar, &endIndex);
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
-                user->streamsInProgress = RKStreamASCIIArtZ;
+                user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
                 user->asciiArtStride = ray->header.gateCount / (user->terminalSize.ws_col - 20);
                 user->rayIndex = endIndex;
                 if (engine->verbose) {
@@ -676,7 +676,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtHealth) {
             // Stream "7" - Health Overview
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtHealth) {
-                user->streamsInProgress = RKStreamASCIIArtHealth;
+                user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
             }
             health = RKGetLatestHealth(user->radar);
             k = RKHealthOverview(user->string, health->string, user->textPreferences | RKTextPreferencesDrawBackground);
@@ -686,7 +686,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtVCP) {
             // Stream "8" - RKSteerEngine (no skipping)
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtVCP) {
-                user->streamsInProgress = RKStreamASCIIArtVCP;
+                user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
             }
             j = 0;
             k = 0;
-- 
2.43.0


From 3dfe82ab03b37fad56ed4e5100f7213d08578bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 156/183] fix: send each ray to a client as one packet

---
 source/RKCommandCenter.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 41bc5ac..d111b0d 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -904,7 +904,9 @@ int socketStreamHandler(RKOperator *O) {
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
                 O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + productCount * rayHeaderV1.gateCount * sizeof(float));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
+                // Gather the whole packet so that nothing else from this operator can get in between
+                memcpy(user->string, &rayHeaderV1, sizeof(RKRayHeaderV1));
+                size = sizeof(RKRayHeaderV1);
 
                 for (j = 0; j < productCount; j++) {
                     if (productList & RKBaseProductListFloatZ) {
@@ -941,13 +943,13 @@ int socketStreamHandler(RKOperator *O) {
                         f32Data = NULL;
                     }
                     if (f32Data) {
-                        float *lowRateData = (float *)user->string;
                         for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
-                            lowRateData[i] = f32Data[k];
+                            memcpy(user->string + size, &f32Data[k], sizeof(float));
+                            size += sizeof(float);
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(float), NULL);
                     }
                 }
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, size, NULL);
                 ray->header.s |= RKRayStatusStreamed;
                 user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
             }
@@ -1040,7 +1042,9 @@ int socketStreamHandler(RKOperator *O) {
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
                 O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + displayCount * rayHeaderV1.gateCount * sizeof(uint8_t));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
+                // Gather the whole packet so that nothing else from this operator can get in between
+                memcpy(user->string, &rayHeaderV1, sizeof(RKRayHeaderV1));
+                size = sizeof(RKRayHeaderV1);
 
                 for (j = 0; j < displayCount; j++) {
                     if (displayList & RKBaseProductListUInt8Z) {
@@ -1077,13 +1081,12 @@ int socketStreamHandler(RKOperator *O) {
                         u8Data = NULL;
                     }
                     if (u8Data) {
-                        uint8_t *lowRateData = (uint8_t *)user->string;
                         for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
-                            lowRateData[i] = u8Data[k];
+                            user->string[size++] = (char)u8Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(uint8_t), NULL);
                     }
                 }
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, size, NULL);
                 ray->header.s |= RKRayStatusStreamed;
                 user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
             } // while (user->rayIndex != endIndex) ...
@@ -1223,7 +1226,9 @@ int socketStreamHandler(RKOperator *O) {
                         ray = sweep->rays[k];
                         memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                         rayHeader.baseProductList = sweepHeader.baseProductList;
-                        size += RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
+                        // Gather the whole packet so that nothing else from this operator can get in between
+                        memcpy(user->string, &rayHeader, sizeof(RKRayHeader));
+                        s = sizeof(RKRayHeader);
                         productList = sweepHeader.baseProductList;
                         if (engine->verbose > 1 && (k < 3 || k == sweepHeader.rayCount - 1)) {
                             RKLog(">%s %s k = %d   moments = %s   (%x)\n", engine->name, O->name, k, user->scratch + 1, productList);
@@ -1263,12 +1268,14 @@ int socketStreamHandler(RKOperator *O) {
                                 f32Data = NULL;
                             }
                             if (f32Data) {
-                                size += RKOperatorSendPackets(O, f32Data, sweep->header.gateCount * sizeof(float), NULL);
+                                memcpy(user->string + s, f32Data, sweep->header.gateCount * sizeof(float));
+                                s += sweep->header.gateCount * sizeof(float);
                                 user->timeLastOut = time;
                             } else if (k == 0) {
                                 RKLog("No data found %04Xh", productList);
                             }
                         } // for (j = 0; ...
+                        size += RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)s, NULL);
                     } // for (k = 0; ...
 
                     gettimeofday(&timevalTx, NULL);
-- 
2.43.0


From 280349ebebcbab3aedef47e3e8c11b8018524aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 157/183] fix: answer the commands of a client with packets of
 their own

---
 source/RKCommandCenter.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index d111b0d..092143e 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -107,6 +107,9 @@ int socketCommandHandler(RKOperator *O) {
 
     RKStream stream;
 
+    // Own delimiter since the streams are sent through the same operator from another thread
+    RKNetDelimiter delimiter;
+
     while (commandString != NULL) {
         if ((commandStringEnd = strchr(commandString, ';')) != NULL) {
             *commandStringEnd = '\0';
@@ -226,9 +229,10 @@ int socketCommandHandler(RKOperator *O) {
                     break;
 
                 case 'i':
-                    O->delimTx.type = RKNetworkPacketTypeRadarDescription;
-                    O->delimTx.size = (uint32_t)sizeof(RKRadarDesc);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &user->radar->desc, sizeof(RKRadarDesc), NULL);
+                    memset(&delimiter, 0, sizeof(RKNetDelimiter));
+                    delimiter.type = RKNetworkPacketTypeRadarDescription;
+                    delimiter.size = (uint32_t)sizeof(RKRadarDesc);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), &user->radar->desc, sizeof(RKRadarDesc), NULL);
                     break;
 
                 case 'q':
@@ -329,13 +333,15 @@ int socketCommandHandler(RKOperator *O) {
                 case 'a':
                     RKLog("%s %s Queue command '%s' to relay.\n", engine->name, O->name, commandString);
                     RKRadarRelayExec(user->radar->radarRelay, commandString, user->commandResponse);
-                    O->delimTx.type = RKNetworkPacketTypeControls;
-                    O->delimTx.size = (uint32_t)strlen(user->commandResponse);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->commandResponse, O->delimTx.size, NULL);
+                    memset(&delimiter, 0, sizeof(RKNetDelimiter));
+                    delimiter.type = RKNetworkPacketTypeControls;
+                    delimiter.size = (uint32_t)strlen(user->commandResponse);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), user->commandResponse, (ssize_t)delimiter.size, NULL);
+                    break;
 
                 case 'r':
                     // Change radar
-                    sscanf("%s", commandString + 1, sval1);
+                    sscanf(commandString + 1, "%s", sval1);
                     RKLog(">%s %s Selected radar %s\n", engine->name, O->name, sval1);
                     snprintf(user->commandResponse, RKMaximumPacketSize, "ACK. %s selected." RKEOL, sval1);
                     RKOperatorSendCommandResponse(O, user->commandResponse);
-- 
2.43.0


From 35e3eb9812b17e1d9a645fb313ce6523df364d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:30 +0000
Subject: [PATCH 158/183] fix: refuse a product that is not completely
 described

---
 source/RKCommandCenter.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 092143e..0de44b4 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -291,7 +291,12 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'u':
                     // Turn this user into an active node with user product return
-                    RKParseProductDescription(&user->productDescriptions[user->productCount], commandString + 1);
+                    if (user->productCount >= RKMaximumProductCount ||
+                        RKParseProductDescription(&user->productDescriptions[user->productCount], commandString + 1) != RKResultSuccess) {
+                        sprintf(user->commandResponse, "NAK. Unable to register product." RKEOL);
+                        RKOperatorSendCommandResponse(O, user->commandResponse);
+                        break;
+                    }
                     RKLog("%s Registering external product %d: '%s' (%s) ...", engine->name,
                           user->productDescriptions[user->productCount].key,
                           user->productDescriptions[user->productCount].name,
@@ -302,7 +307,7 @@ int socketCommandHandler(RKOperator *O) {
                         //         user->productDescriptions[user->productCount].key,
                         //         user->productDescriptions[user->productCount].symbol,
                         //         user->productIds[user->productCount]);
-                        strncpy(symbol, user->productDescriptions[user->productCount].symbol, 7);
+                        snprintf(symbol, sizeof(symbol), "%s", user->productDescriptions[user->productCount].symbol);
                         snprintf(user->commandResponse, RKMaximumCommandLength, "ACK. {\"type\": \"productDescription\", \"key\":%u, \"symbol\":\"%s\", \"pid\":%u}" RKEOL,
                                 user->productDescriptions[user->productCount].key,
                                 symbol,
-- 
2.43.0


From 0dd725d04cd42152bf1c2e1f72e775973b433ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:40 +0000
Subject: [PATCH 159/183] fix: take the product of a client only if it has the
 size of its sweep

---
 source/RKCommandCenter.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 0de44b4..ab640ba 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1307,18 +1307,29 @@ int socketStreamHandler(RKOperator *O) {
                             RKLog("%s %s Error. Failed receiving user product header ...\n", engine->name, O->name);
                             continue;
                         }
-                        productId = RKProductIdFromString(RKGetValueOfKey(user->string, "productId"));
-                        identifier = RKIdentifierFromString(RKGetValueOfKey(user->string, "configId"));
+                        user->string[MIN(size, RKMaximumPacketSize - 1)] = '\0';
+                        c = RKGetValueOfKey(user->string, "productId");
+                        productId = c ? RKProductIdFromString(c) : 0;
+                        c = RKGetValueOfKey(user->string, "configId");
+                        identifier = c ? RKIdentifierFromString(c) : 0;
+                        // Always consume the data packet, which goes to the product only if it is what is expected
+                        size = RKServerReceiveUserPayload(O, user->scratch, RKNetworkMessageFormatHeaderDefinedSize);
+                        if (size < 0) {
+                            RKLog("%s %s Error. Failed receiving user product data ...\n", engine->name, O->name);
+                            continue;
+                        }
                         if (user->productIds[k] != productId) {
                             RKLog("%s %s Warning. Inconsistent productId = %d (expected) != %d (reported)\n", engine->name, O->name, user->productIds[k], productId);
                         } else if (sweep->header.config.i != identifier) {
                             RKLog("%s %s Warning. Inconsistent configId = %lu (expected) != %lu (reported)\n", engine->name, O->name, sweep->header.config.i, identifier);
+                        } else if (size != (ssize_t)(sweep->header.rayCount * sweep->header.gateCount * sizeof(RKFloat))) {
+                            RKLog("%s %s Warning. Inconsistent product size = %zd\n", engine->name, O->name, size);
                         } else {
                             product = RKSweepEngineGetVacantProduct(user->radar->sweepEngine, sweep, productId);
                             if (product) {
                                 // Transfer important meta data and prepare the necessary buffer size
                                 RKProductInitFromSweep(product, sweep);
-                                size = RKServerReceiveUserPayload(O, product->data, RKNetworkMessageFormatHeaderDefinedSize);
+                                memcpy(product->data, user->scratch, size);
                                 if (user->radar->sweepEngine->verbose > 1) {
                                     RKLog("%s %s %s (%d) -> %u %zu\n",
                                           engine->name, O->name, user->string, strlen(user->string), productId, identifier);
@@ -1326,13 +1337,7 @@ int socketStreamHandler(RKOperator *O) {
                                 RKShowArray(product->data, product->desc.symbol, product->header.gateCount, product->header.rayCount);
                                 RKSweepEngineSetProductComplete(user->radar->sweepEngine, sweep, product);
                             } else {
-                                // Still need to consume this packet so we dump it to a scratch space
                                 RKLog("Warning. Unable to retrieve storage for incoming sweep.\n");
-                                size = RKServerReceiveUserPayload(O, user->scratch, RKNetworkMessageFormatHeaderDefinedSize);
-                            }
-                            if (size < 0) {
-                                RKLog("%s %s Error. Failed receiving user product data ...\n", engine->name, O->name);
-                                continue;
                             }
                         } // else (user->productIds[k] == productId && sweep->header.config.i == identifier)
                     } // for (k = 0; k < user->productCount; k++) ...
-- 
2.43.0


From 9a085d1c7a87bf47875145933be5c0c5c9a51fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 160/183] fix: draw rays of few gates, and wait for the first
 one, in the text display

---
 source/RKCommandCenter.c | 8 ++++----
 source/RKRadar.c         | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index ab640ba..b1ce699 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -605,9 +605,9 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtZ) {
             // Stream "6" - ASCII art of reflectivity
             ray = RKGetLatestRayIndex(user->radar, &endIndex);
-            if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
+            if (ray && (user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
                 user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
-                user->asciiArtStride = ray->header.gateCount / (user->terminalSize.ws_col - 20);
+                user->asciiArtStride = MAX(ray->header.gateCount / (user->terminalSize.ws_col - 20), 1);
                 user->rayIndex = endIndex;
                 if (engine->verbose) {
                     RKLog("%s %s Streaming RKRay ASCII art -> %d (0x%02x %s).\n", engine->name, O->name, endIndex,
@@ -619,8 +619,8 @@ int socketStreamHandler(RKOperator *O) {
                 while (user->rayIndex != endIndex && k < RKMaximumPacketSize - 200) {
                     ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
                     if (!(ray->header.s & RKRayStatusReady)) {
-                        usleep(10000);
-                        continue;
+                        // The next iteration continues from here
+                        break;
                     }
                     k += sprintf(user->string + k, "%04d %5.2f %6.2f ", (int)(ray->header.i % 1000), ray->header.startElevation, ray->header.startAzimuth);
                     // Now we paint the ASCII art
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 3b110e4..ca1f704 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3022,7 +3022,7 @@ RKRay *RKGetLatestRayIndex(RKRadar *radar, uint32_t *index) {
         *index = RKPreviousModuloS(*index, radar->desc.rayBufferDepth);
         ray = RKGetRayFromBuffer(radar->rays, *index);
     }
-    if (k == radar->desc.rayBufferDepth) {
+    if (!(ray->header.s & RKRayStatusReady)) {
         ray = NULL;
     }
     return ray;
-- 
2.43.0


From c1867bc133ca95872b9694c044009b7f110a4f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 161/183] fix: remove a radar from the list of the command
 center

---
 source/RKCommandCenter.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index b1ce699..d34a158 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1606,7 +1606,7 @@ int socketTerminateHandler(RKOperator *O) {
     user->streams = RKStreamNull;
     RKLog(">%s %s Disconnected.\n", engine->name, O->name);
     for (k = 0; k < user->productCount; k++) {
-        if (user->productIds[k]) {
+        if (user->radar && user->productIds[k]) {
             RKSweepEngineUndescribeProduct(user->radar->sweepEngine, user->productIds[k]);
             user->productIds[k] = 0;
         }
@@ -1664,6 +1664,7 @@ void RKCommandCenterSetPort(RKCommandCenter *engine, const int port) {
 void RKCommandCenterAddRadar(RKCommandCenter *engine, RKRadar *radar) {
     if (engine->radarCount >= 4) {
         RKLog("%s unable to add another radar.\n", engine->name);
+        return;
     }
     engine->radars[engine->radarCount] = radar;
     engine->radarCount++;
@@ -1686,10 +1687,12 @@ void RKCommandCenterRemoveRadar(RKCommandCenter *engine, RKRadar *radar) {
     for (i = 0; i < engine->radarCount; i++) {
         if (engine->radars[i] == radar) {
             RKLog("%s Removing '%s' ...\n", engine->name, radar->desc.name);
-            while (i < engine->radarCount - 1) {
-                engine->radars[i] = engine->radars[i + 1];
+            for (k = i; k < engine->radarCount - 1; k++) {
+                engine->radars[k] = engine->radars[k + 1];
             }
             engine->radarCount--;
+            engine->radars[engine->radarCount] = NULL;
+            break;
         }
     }
     for (i = 0; i < engine->server->maxClient; i++) {
-- 
2.43.0


From bf550d5312ef20f3eb5338ae1cef7c5518a981ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 162/183] fix: remove a radar from the command center and from
 its clients

---
 source/RKCommandCenter.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index d34a158..333a25e 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -123,13 +123,9 @@ int socketCommandHandler(RKOperator *O) {
             }
             // There is no need to send a response. The delegate function socketStreamHandler sends a beacon periodically
         } else if (user->radar == NULL) {
-            k = 0;
-            while (user->radar == NULL) {
-                usleep(100000);
-                if (++k % 10 == 0 && engine->verbose > 1) {
-                    RKLog("%s sleep 1/%.1f s   radar->state = 0x%04x\n", engine->name, (float)k * 0.1f, user->radar->state);
-                }
-            }
+            RKLog("%s %s No radar for command '%s'\n", engine->name, O->name, commandString);
+            sprintf(user->commandResponse, "NAK. The radar is no longer available." RKEOL);
+            RKOperatorSendCommandResponse(O, user->commandResponse);
         } else if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
             k = 0;
             while (!(user->radar->state & RKRadarStateLive)) {
-- 
2.43.0


From 7f13aecfe601739bf956ce61d780bbfc626a2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 163/183] fix: pass the PRF to RKAddConfig as the double it
 reads

---
 source/RKRadar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index ca1f704..79045de 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1552,7 +1552,7 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-    RKAddConfig(radar, RKConfigKeyPRF, prf, RKConfigKeyNull);
+    RKAddConfig(radar, RKConfigKeyPRF, (double)prf, RKConfigKeyNull);
     return RKResultSuccess;
 }
 
@@ -1787,7 +1787,7 @@ int RKGoLive(RKRadar *radar) {
     // Add a dummy config to get things started if there hasn't been one from the user
     if (radar->configIndex == 0) {
         RKAddConfig(radar,
-                    RKConfigKeyPRF, 1000,
+                    RKConfigKeyPRF, 1000.0,
                     RKConfigKeySystemNoise, 0.1, 0.1,
                     RKConfigKeySystemZCal, -27.0, -27.0,
                     RKConfigKeySystemDCal, -0.01,
-- 
2.43.0


From 56bc0ebce5c856d6896f6af21a58d0997a00ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 164/183] fix: free the waveform that was made only to be
 copied

---
 source/RKRadar.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 79045de..f75bf84 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1540,7 +1540,11 @@ int RKSetWaveformByFilename(RKRadar *radar, const char *filename) {
     }
     // Load in the waveform
     RKWaveform *waveform = RKWaveformInitFromFile(filename);
-    return RKSetWaveform(radar, waveform);
+    int r = RKSetWaveform(radar, waveform);
+    if (waveform != NULL) {
+        RKWaveformFree(waveform);
+    }
+    return r;
 }
 
 int RKSetWaveformToImpulse(RKRadar *radar) {
@@ -1548,7 +1552,9 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
         return RKResultNoPulseCompressionEngine;
     }
     RKWaveform *waveform = RKWaveformInitAsImpulse();
-    return RKSetWaveform(radar, waveform);;
+    int r = RKSetWaveform(radar, waveform);
+    RKWaveformFree(waveform);
+    return r;
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-- 
2.43.0


From 9fed8210287f17fd83d956abe8628fa3becf37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 165/183] fix: free what a stopped radar holds

---
 source/RKRadar.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index f75bf84..94097df 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1079,8 +1079,9 @@ int RKFree(RKRadar *radar) {
         RKStop(radar);
     }
     // Various RadarKit engines
-    if (radar->state & RKRadarStateFileManagerInitialized) {
+    if (radar->fileManager) {
         RKFileManagerFree(radar->fileManager);
+        radar->fileManager = NULL;
     }
     if (radar->pulseClock) {
         RKClockFree(radar->pulseClock);
@@ -1098,46 +1099,50 @@ int RKFree(RKRadar *radar) {
         radar->userModuleFree(radar->userModule);
         radar->userModule = NULL;
     }
-    if (radar->state & RKRadarStatePulseCompressionEngineInitialized) {
+    if (radar->pulseEngine) {
         RKPulseEngineFree(radar->pulseEngine);
         radar->pulseEngine = NULL;
     }
-    if (radar->state & RKRadarStatePulseRingFilterEngineInitialized) {
+    if (radar->pulseRingFilterEngine) {
         RKPulseRingFilterEngineFree(radar->pulseRingFilterEngine);
         radar->pulseRingFilterEngine = NULL;
     }
-    if (radar->state & RKRadarStatePositionEngineInitialized) {
+    if (radar->positionEngine) {
         RKPositionEngineFree(radar->positionEngine);
         radar->positionEngine = NULL;
     }
-    if (radar->state & RKRadarStatePositionSteerEngineInitialized) {
+    if (radar->steerEngine) {
         RKSteerEngineFree(radar->steerEngine);
         radar->steerEngine = NULL;
     }
-    if (radar->state & RKRadarStateMomentEngineInitialized) {
+    if (radar->momentEngine) {
         RKMomentEngineFree(radar->momentEngine);
         radar->momentEngine = NULL;
     }
-    if (radar->state & RKRadarStateHealthEngineInitialized) {
+    if (radar->healthEngine) {
         RKHealthEngineFree(radar->healthEngine);
         radar->healthEngine = NULL;
     }
-    if (radar->state & RKRadarStateRadarRelayInitialized) {
+    if (radar->radarRelay) {
         RKRadarRelayFree(radar->radarRelay);
         radar->radarRelay = NULL;
     }
-    if (radar->state & RKRadarStateHealthLoggerInitialized) {
+    if (radar->healthLogger) {
         RKHealthLoggerFree(radar->healthLogger);
         radar->healthLogger = NULL;
     }
-    if (radar->state & RKRadarStateSweepEngineInitialized) {
+    if (radar->sweepEngine) {
         RKSweepEngineFree(radar->sweepEngine);
         radar->sweepEngine = NULL;
     }
-    if (radar->state & RKRadarStateFileRecorderInitialized) {
+    if (radar->rawDataRecorder) {
         RKRawDataRecorderFree(radar->rawDataRecorder);
         radar->rawDataRecorder = NULL;
     }
+    if (radar->hostMonitor) {
+        RKHostMonitorFree(radar->hostMonitor);
+        radar->hostMonitor = NULL;
+    }
     // Transceiver, pedestal & health relay
     if (radar->pedestal) {
         radar->pedestalFree(radar->pedestal);
@@ -1166,9 +1171,13 @@ int RKFree(RKRadar *radar) {
         RKWaveformFree(radar->waveform);
         radar->waveform = NULL;
     }
+    if (radar->waveformDecimate) {
+        RKWaveformFree(radar->waveformDecimate);
+        radar->waveformDecimate = NULL;
+    }
     if (radar->filter) {
         if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing filter ...\n", radar->waveform->name);
+            RKLog("Freeing filter ...\n");
         }
         free(radar->filter);
         radar->filter = NULL;
@@ -1187,6 +1196,9 @@ int RKFree(RKRadar *radar) {
         free(radar->healths);
     }
     if (radar->state & RKRadarStateHealthNodesAllocated) {
+        for (k = 0; k < radar->desc.healthNodeCount; k++) {
+            free(radar->healthNodes[k].healths);
+        }
         free(radar->healthNodes);
     }
     if (radar->state & RKRadarStatePositionBufferAllocated) {
-- 
2.43.0


From 59dd7b124b3d4a2589f2c25d2f0ee39273cedb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 166/183] fix: free the list of hosts of the host monitor

---
 source/RKHostMonitor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 38902f8..ed8af29 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -505,6 +505,7 @@ void RKHostMonitorFree(RKHostMonitor *engine) {
         RKHostMonitorStop(engine);
     }
     pthread_mutex_destroy(&engine->mutex);
+    free(engine->hosts);
     free(engine);
 }
 
-- 
2.43.0


From 504f40b8703a1b8ffb253091562d6195a3795874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 167/183] fix: free all filters of the pulse engine

---
 source/RKPulseEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 3942e18..5786985 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -988,8 +988,8 @@ void RKPulseEngineFree(RKPulseEngine *engine) {
     if (engine->state & RKEngineStateWantActive) {
         RKPulseEngineStop(engine);
     }
-    for (int i = 0; i < engine->filterGroupCount; i++) {
-        for (int j = 0; j < engine->filterCounts[i]; j++) {
+    for (int i = 0; i < RKMaximumWaveformCount; i++) {
+        for (int j = 0; j < RKMaximumFilterCount; j++) {
             if (engine->filters[i][j] != NULL) {
                 free(engine->filters[i][j]);
             }
-- 
2.43.0


From a9129625d2155bc3d5aaff41bd69d2176eb78d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 168/183] fix: free the spectra of the moment scratch

---
 source/RKScratch.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index 34863d2..0624e24 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -275,9 +275,15 @@ void RKMomentScratchFree(RKMomentScratch *scratch) {
     for (k = 0; k < scratch->capacity; k++) {
         free(scratch->inBuffer[k]);
         free(scratch->outBuffer[k]);
+        free(scratch->fC[k]);
+        free(scratch->fS[0][k]);
+        free(scratch->fS[1][k]);
     }
     free(scratch->inBuffer);
     free(scratch->outBuffer);
+    free(scratch->fC);
+    free(scratch->fS[0]);
+    free(scratch->fS[1]);
     free(scratch);
 }
 
-- 
2.43.0


From 46a94866cf40b685967ccbbcab2c3a9a23745423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 169/183] fix: free the wisdom of the FFT module

---
 source/RKDSP.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index 4350971..0847db2 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -499,13 +499,13 @@ RKFFTModule *RKFFTModuleInit(const uint32_t capacity, const int verbose) {
     }
 
     // DFT Wisdom
-    char *wisdom = (char *)malloc(1024 * 1024);
+    char *wisdom = NULL;
     sprintf(module->wisdomFile, "%s/%s", rkGlobalParameters.rootDataFolder, RKFFTWisdomFile);
     RKPreparePath(module->wisdomFile);
     if (RKFilenameExists(module->wisdomFile)) {
         RKLog("%s Loading DFT wisdom %s ...\n", module->name, module->wisdomFile);
         fftwf_import_wisdom_from_filename(module->wisdomFile);
-        strcpy(wisdom, fftwf_export_wisdom_to_string());
+        wisdom = fftwf_export_wisdom_to_string();
     } else {
         RKLog("%s DFT wisdom file not found.\n", module->name);
         module->exportWisdom = true;
@@ -534,9 +534,11 @@ RKFFTModule *RKFFTModuleInit(const uint32_t capacity, const int verbose) {
         module->count++;
     }
     if (!module->exportWisdom) {
-        if (strcmp(wisdom, fftwf_export_wisdom_to_string())) {
+        char *latest = fftwf_export_wisdom_to_string();
+        if (wisdom == NULL || latest == NULL || strcmp(wisdom, latest)) {
             module->exportWisdom = true;
         }
+        free(latest);
     }
     if (module->exportWisdom) {
         RKLog("%s Saving DFT wisdom %s ...\n", module->name, module->wisdomFile);
-- 
2.43.0


From 6026b97c7e2fd5b94363fdba89bbde772755c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:57 +0000
Subject: [PATCH 170/183] fix: keep the waveforms that older configs refer to

---
 headers/RadarKit/RKRadar.h |  2 ++
 source/RKRadar.c           | 50 +++++++++++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/headers/RadarKit/RKRadar.h b/headers/RadarKit/RKRadar.h
index 96a7428..cbb9149 100644
--- a/headers/RadarKit/RKRadar.h
+++ b/headers/RadarKit/RKRadar.h
@@ -154,6 +154,8 @@ struct rk_radar {
     //
     RKWaveform                       *waveform;
     RKWaveform                       *waveformDecimate;
+    RKWaveform                       **oldWaveforms;                           // Waveforms replaced but still in config buffer
+    uint32_t                         oldWaveformCount;                         // Number of waveforms in oldWaveforms
     RKIIRFilter                      *filter;
     //
     // Hardware protocols for controls
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 94097df..b63f4ea 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -50,6 +50,37 @@ static uint32_t getUID(UIDType type) {
     return 0;
 }
 
+// Keep the waveform until no config refers to it, free those that can go
+static void retireWaveform(RKRadar *radar, RKWaveform *waveform) {
+    if (waveform == NULL) {
+        return;
+    }
+    RKWaveform **list = (RKWaveform **)realloc(radar->oldWaveforms, (radar->oldWaveformCount + 1) * sizeof(RKWaveform *));
+    if (list == NULL) {
+        RKLog("Error. Unable to keep an old waveform.\n");
+        return;
+    }
+    radar->oldWaveforms = list;
+    list[radar->oldWaveformCount++] = waveform;
+    uint32_t i, j, k = 0;
+    for (i = 0; i < radar->oldWaveformCount; i++) {
+        for (j = 0; j < radar->desc.configBufferDepth; j++) {
+            if (radar->configs[j].waveform == list[i] || radar->configs[j].waveformDecimate == list[i]) {
+                break;
+            }
+        }
+        if (j < radar->desc.configBufferDepth) {
+            list[k++] = list[i];
+            continue;
+        }
+        if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
+            RKLog("Freeing waveform cache ...\n");
+        }
+        RKWaveformFree(list[i]);
+    }
+    radar->oldWaveformCount = k;
+}
+
 void *freeUserModuleDelayed(void *input) {
     RKOldUserModule *resource = (RKOldUserModule *)input;
     RKRadar *radar = resource->radar;
@@ -1175,6 +1206,10 @@ int RKFree(RKRadar *radar) {
         RKWaveformFree(radar->waveformDecimate);
         radar->waveformDecimate = NULL;
     }
+    for (k = 0; k < radar->oldWaveformCount; k++) {
+        RKWaveformFree(radar->oldWaveforms[k]);
+    }
+    free(radar->oldWaveforms);
     if (radar->filter) {
         if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
             RKLog("Freeing filter ...\n");
@@ -1520,18 +1555,9 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
     if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
         RKLog("Waveform '%s' cached.\n", waveform->name);
     }
-    if (oldWaveformDecimate != NULL) {
-        if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing radar->waveformDecimate cache ...\n");
-        }
-        RKWaveformFree(oldWaveformDecimate);
-    }
-    if (oldWaveform != NULL) {
-        if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing radar->waveform cache ...\n");
-        }
-        RKWaveformFree(oldWaveform);
-    }
+    // The engines may still be working with the older configs that refer to the old waveforms
+    retireWaveform(radar, oldWaveformDecimate);
+    retireWaveform(radar, oldWaveform);
     if (radar->desc.initFlags & RKInitFlagVerbose) {
         RKPulseEngineFilterSummary(radar->pulseEngine);
     }
-- 
2.43.0


From eb508575a824fc0955a7ab280cb7bc3880adf780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:33 +0000
Subject: [PATCH 171/183] fix: count only the calibrations and controls that
 have room

---
 source/RKRadar.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index b63f4ea..9bf8245 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3084,11 +3084,12 @@ void RKUpdateWaveformCalibration(RKRadar *radar, const uint8_t index, const RKWa
 }
 
 void RKAddWaveformCalibration(RKRadar *radar, const RKWaveformCalibration *calibration) {
-    uint8_t index = radar->waveformCalibrationCount++;
+    uint8_t index = radar->waveformCalibrationCount;
     if (index >= radar->desc.waveformCalibrationCapacity) {
         RKLog("Error. Cannot add anymore waveform calibration.\n");
         return;
     }
+    radar->waveformCalibrationCount++;
     RKUpdateWaveformCalibration(radar, index, calibration);
 }
 
@@ -3119,20 +3120,22 @@ void RKUpdateControl(RKRadar *radar, const uint8_t index, const RKControl *contr
 }
 
 void RKAddControl(RKRadar *radar, const RKControl *control) {
-    uint8_t index = radar->controlCount++;
+    uint8_t index = radar->controlCount;
     if (index >= radar->desc.controlCapacity) {
         RKLog("Error. Cannot add anymore controls.\n");
         return;
     }
+    radar->controlCount++;
     RKUpdateControl(radar, index, control);
 }
 
 void RKAddControlAsLabelAndCommand(RKRadar *radar, const char *label, const char *command) {
-    uint8_t index = radar->controlCount++;
+    uint8_t index = radar->controlCount;
     if (index >= radar->desc.controlCapacity) {
         RKLog("Error. Cannot add anymore controls.\n");
         return;
     }
+    radar->controlCount++;
     RKControl *target = &radar->controls[index];
     strncpy(target->label, label, RKNameLength - 1);
     target->label[RKNameLength - 1] = '\0';
-- 
2.43.0


From 11ae761d3130595c82b5fbe08aca7243a4fe22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:41 +0000
Subject: [PATCH 172/183] fix: log numbers and names with the formats they have

---
 source/RKPulseEngine.c | 2 +-
 source/RKRadar.c       | 8 ++++----
 source/RKScratch.c     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 5786985..419ad57 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -1368,7 +1368,7 @@ int RKPulseEngineStop(RKPulseEngine *engine) {
 
 RKPulse *RKPulseEngineGetVacantPulse(RKPulseEngine *engine, const RKPulseStatus waitMask) {
     if (!(engine->state & RKEngineStateProperlyWired)) {
-        RKLog("%s Error. Not properly wired for RKPulseEngineGetVacantPulse()\n");
+        RKLog("%s Error. Not properly wired for RKPulseEngineGetVacantPulse()\n", engine->name);
         return NULL;
     }
     // Set the 1/8-ahead (7/8-depth old) pulse vacant if it has been used
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 9bf8245..b5ff4bc 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -457,7 +457,7 @@ void *radarCoPilot(void *in) {
                 RKLog("Nothing ...\n");
             }
         }
-        RKLog(productGenerator->rayStatusBuffer[k]);
+        RKLog("%s", productGenerator->rayStatusBuffer[k]);
         k = RKNextModuloS(k, RKBufferSSlotCount);
     }
     return NULL;
@@ -543,7 +543,7 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
     }
     if (radar->desc.positionBufferDepth > RKBufferPSlotCount) {
         radar->desc.positionBufferDepth = RKBufferPSlotCount;
-        RKLog("Info. Position buffer clamped to %s\n", radar->desc.positionBufferDepth);
+        RKLog("Info. Position buffer clamped to %s\n", RKIntegerToCommaStyleString(radar->desc.positionBufferDepth));
     } else if (radar->desc.positionBufferDepth == 0) {
         radar->desc.positionBufferDepth = 500;
     }
@@ -584,13 +584,13 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
     }
     if (radar->desc.controlCapacity > RKMaximumControlCount) {
         radar->desc.controlCapacity = RKMaximumControlCount;
-        RKLog("Info. Control count limited to %s\n", radar->desc.controlCapacity);
+        RKLog("Info. Control count limited to %s\n", RKIntegerToCommaStyleString(radar->desc.controlCapacity));
     } else if (radar->desc.controlCapacity == 0) {
         radar->desc.controlCapacity = 64;
     }
     if (radar->desc.waveformCalibrationCapacity > RKMaximumWaveformCalibrationCount) {
         radar->desc.waveformCalibrationCapacity = RKMaximumWaveformCalibrationCount;
-        RKLog("Info. Waveform calibration count limited to %s\n", radar->desc.controlCapacity);
+        RKLog("Info. Waveform calibration count limited to %s\n", RKIntegerToCommaStyleString(radar->desc.waveformCalibrationCapacity));
     } else if (radar->desc.waveformCalibrationCapacity == 0) {
         radar->desc.waveformCalibrationCapacity = 64;
     }
diff --git a/source/RKScratch.c b/source/RKScratch.c
index 0624e24..44e4bc4 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -22,7 +22,7 @@
 size_t RKCompressionScratchAlloc(RKCompressionScratch **buffer, const uint32_t capacity, const uint8_t verbose, const char * _Nullable name) {
     uint32_t goodCapacity = (capacity * sizeof(RKFloat) / RKMemoryAlignSize) * RKMemoryAlignSize / sizeof(RKFloat);
     if (capacity == 0 || capacity != goodCapacity) {
-        RKLog("Error. Unable to allocate capacity = %d. Must be greater than 0 and an integer multiple of %s!",
+        RKLog("Error. Unable to allocate capacity = %s. Must be greater than 0 and an integer multiple of %s!",
             RKIntegerToCommaStyleString(capacity),
             RKIntegerToCommaStyleString(RKMemoryAlignSize / sizeof(RKFloat)));
         return 0;
-- 
2.43.0


From 8043530444aae0392c90de2f71b9d0eb56da59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:40 +0000
Subject: [PATCH 173/183] fix: leave the lock of the configs for the next radar

---
 source/RKRadar.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index b5ff4bc..1fe2d22 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1217,8 +1217,6 @@ int RKFree(RKRadar *radar) {
         free(radar->filter);
         radar->filter = NULL;
     }
-    va_list ignore = {0};
-    RKConfigAdvance(NULL, NULL, 0, ignore);
     // Buffers
     RKLog("Freeing radar '%s' ...\n", radar->desc.name);
     if (radar->state & RKRadarStateStatusBufferAllocated) {
-- 
2.43.0


From 21335de6f7f5ba991d831d432d70b7fe1b674622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:40 +0000
Subject: [PATCH 174/183] fix: take a pulse-to-ray ratio that was not set as 1

---
 source/RKRadar.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 1fe2d22..fb04830 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -495,8 +495,9 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
     RKLog("Initializing ... 0x%08x %s", desc.initFlags, desc.dataPath);
 
     // Some basic check
-    uint32_t goodPulseCapacity = (uint32_t)ceilf(((float)desc.pulseCapacity * sizeof(RKFloat) / RKMemoryAlignSize / desc.pulseToRayRatio))
-                               * RKMemoryAlignSize * desc.pulseToRayRatio / sizeof(RKFloat);
+    const uint32_t pulseToRayRatio = desc.pulseToRayRatio == 0 ? 1 : desc.pulseToRayRatio;
+    uint32_t goodPulseCapacity = (uint32_t)ceilf(((float)desc.pulseCapacity * sizeof(RKFloat) / RKMemoryAlignSize / pulseToRayRatio))
+                               * RKMemoryAlignSize * pulseToRayRatio / sizeof(RKFloat);
     if (desc.pulseCapacity != goodPulseCapacity) {
         RKLog("Error. Recommend setting pulseCapacity %s -> %s\n",
             RKIntegerToCommaStyleString(desc.pulseCapacity), RKIntegerToCommaStyleString(goodPulseCapacity));
@@ -523,6 +524,7 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
 
     // Copy over the input flags and constaint the capacity and depth to hard-coded limits
     radar->desc = desc;
+    radar->desc.pulseToRayRatio = pulseToRayRatio;
     if (radar->desc.statusBufferDepth > RKBufferSSlotCount) {
         radar->desc.statusBufferDepth = RKBufferSSlotCount;
         RKLog("Info. Status buffer clamped to %s\n", RKIntegerToCommaStyleString(radar->desc.statusBufferDepth));
-- 
2.43.0


From 874a5e107fc5653fd32acb36df28d2336d07df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 175/183] fix: answer commands for a device that is not there

---
 source/RKRadar.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index fb04830..aa5975f 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2575,6 +2575,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         //RKOperatorSendCommandResponse(O, string);
                         break;
                     }
+                    if (radar->healthRelay == NULL || radar->healthRelayExec == NULL) {
+                        if (string) {
+                            sprintf(string, "NAK. No health relay." RKEOL);
+                        }
+                        break;
+                    }
                     k = 0;
                     do {
                         k++;
@@ -2591,6 +2597,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                     }
                     break;
                 }
+                if (radar->pedestal == NULL || radar->pedestalExec == NULL) {
+                    if (string) {
+                        sprintf(string, "NAK. No pedestal." RKEOL);
+                    }
+                    break;
+                }
                 k = 0;
                 do {
                     k++;
@@ -2606,6 +2618,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                     }
                     break;
                 }
+                if (radar->transceiver == NULL || radar->transceiverExec == NULL) {
+                    if (string) {
+                        sprintf(string, "NAK. No transceiver." RKEOL);
+                    }
+                    break;
+                }
                 k = 0;
                 do {
                     k++;
-- 
2.43.0


From f6c1cef1c27a1b3c5bcc4380e0111e6db1a820cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 176/183] fix: keep the command of a background task until it
 ran

---
 source/RKRadar.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index aa5975f..68ebadb 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -468,6 +468,7 @@ void *masterControllerExecuteInBackground(void *in) {
     if (radarCommand->radar->masterController) {
         radarCommand->radar->masterControllerExec(radarCommand->radar->masterController, radarCommand->command, NULL);
     }
+    free(radarCommand);
     return NULL;
 }
 
@@ -2703,11 +2704,20 @@ void RKPerformMasterTaskInBackground(RKRadar *radar, const char *command) {
         RKLog("Master controller is not set.\n");
         return;
     }
-    RKRadarCommand taskInput;
-    taskInput.radar = radar;
-    strncpy(taskInput.command, command, RKMaximumCommandLength - 1);
+    RKRadarCommand *taskInput = (RKRadarCommand *)malloc(sizeof(RKRadarCommand));
+    if (taskInput == NULL) {
+        RKLog("Error. Unable to allocate a master task.\n");
+        return;
+    }
+    taskInput->radar = radar;
+    snprintf(taskInput->command, sizeof(taskInput->command), "%s", command);
     pthread_t tid;
-    pthread_create(&tid, NULL, &masterControllerExecuteInBackground, &taskInput);
+    if (pthread_create(&tid, NULL, &masterControllerExecuteInBackground, taskInput)) {
+        RKLog("Error. Unable to launch a master task.\n");
+        free(taskInput);
+        return;
+    }
+    pthread_detach(tid);
 }
 
 // General
-- 
2.43.0


From 47dbfd136960726d318c6e62bec42c8b7958a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 177/183] fix: read the parameters of DSP commands with a space

---
 source/RKRadar.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 68ebadb..5c11ea6 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2231,6 +2231,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
     memset(sval2, 0, sizeof(sval2));
     double fval1 = 0.0;
     double fval2 = 0.0;
+    const char *parameter;
     RKFilterType filterType;
     uint32_t u32;
     int ival;
@@ -2250,7 +2251,9 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
         switch (commandString[0]) {
             case 'd':
                 // DSP related
-                switch (commandString[commandString[1] == ' ' ? 2 : 1]) {
+                k = commandString[1] == ' ' ? 2 : 1;
+                parameter = &commandString[commandString[k] == '\0' ? k : k + 1];
+                switch (commandString[k]) {
                     case 'c':
                         RKClearPulseBuffer(radar->pulses, radar->desc.pulseBufferDepth);
                         RKClearRayBuffer(radar->rays, radar->desc.rayBufferDepth);
@@ -2260,7 +2263,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         break;
                     case 'f':
                         // 'df' - DSP filter
-                        k = sscanf(&commandString[2], "%d %u", &ival, &u32);
+                        k = sscanf(parameter, "%d %u", &ival, &u32);
                         if (k == 2) {
                             filterType = ival;
                             RKLog("type = %u   u32 = %u\n", filterType, u32);
@@ -2290,7 +2293,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         break;
                     case 'm':
                         // 'dm' - DSP moment method
-                        k = sscanf(&commandString[2], "%d", &ival);
+                        k = sscanf(parameter, "%d", &ival);
                         if (k == 1) {
                             switch (ival) {
                                 case 1:
@@ -2314,7 +2317,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                                 case 4:
                                     RKSetMomentProcessorToMultiLag(radar, 4);
                                     if (string) {
-                                        sprintf(string, "ACK. Moment processor set to MultiLag-3." RKEOL);
+                                        sprintf(string, "ACK. Moment processor set to MultiLag-4." RKEOL);
                                     }
                                     break;
                                 case 5:
@@ -2342,7 +2345,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         break;
                     case 'n':
                         // 'dn' - DSP noise override
-                        k = sscanf(&commandString[2], "%lf %lf", &fval1, &fval2);
+                        k = sscanf(parameter, "%lf %lf", &fval1, &fval2);
                         if (k == 2) {
                             RKAddConfig(radar, RKConfigKeySystemNoise, fval1, fval2, RKConfigKeyNull);
                             if (string) {
@@ -2365,7 +2368,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         }
                         break;
                     case 'q':
-                        k = sscanf(&commandString[2], "%lf", &fval1);
+                        k = sscanf(parameter, "%lf", &fval1);
                         if (k == 1) {
                             RKAddConfig(radar, RKConfigKeySQIThreshold, fval1, RKConfigKeyNull);
                             if (string) {
@@ -2379,7 +2382,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         // 'ds' - DSP threshold in SNR dB
                     case 't':
                         // 'dt' - DSP threshold in SNR dB
-                        k = sscanf(&commandString[2], "%lf", &fval1);
+                        k = sscanf(parameter, "%lf", &fval1);
                         if (k == 1) {
                             RKAddConfig(radar, RKConfigKeySNRThreshold, fval1, RKConfigKeyNull);
                             if (string) {
-- 
2.43.0


From c2f5f4c65b71f393ec3e3a943e74b9b7c39be557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:17 +0000
Subject: [PATCH 178/183] fix: free user devices of a radar without a health
 relay

---
 source/RKRadar.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 5c11ea6..6554a55 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1189,11 +1189,11 @@ int RKFree(RKRadar *radar) {
     if (radar->healthRelay) {
         radar->healthRelayFree(radar->healthRelay);
         radar->healthRelay = NULL;
-        for (k = 0; k < RKHealthNodeCount; k++) {
-            if (radar->userDevices[k].device) {
-                radar->userDevices[k].free(radar->userDevices[k].device);
-                radar->userDevices[k].device = NULL;
-            }
+    }
+    for (k = 0; k < RKHealthNodeCount; k++) {
+        if (radar->userDevices[k].device) {
+            radar->userDevices[k].free(radar->userDevices[k].device);
+            radar->userDevices[k].device = NULL;
         }
     }
     // Internal copies of things
-- 
2.43.0


From 4199cc2f4853e96d188aa315eca9b5bcf0fa183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:25 +0000
Subject: [PATCH 179/183] fix: answer DSP commands that are not understood

---
 source/RKRadar.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 6554a55..6c1569f 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2357,9 +2357,6 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                             sprintf(string, "NAK. Must have two paramters  (k = %d)." RKEOL, k);
                         }
                         break;
-                    case 'N':
-                        // 'dN' - DSP noise override in dB
-                        break;
                     case 'r':
                         // 'dr' - Restart DSP engines
                         RKSoftRestart(radar);
@@ -2393,6 +2390,9 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         }
                         break;
                     default:
+                        if (string) {
+                            snprintf(string, RKMaximumStringLength, "NAK. Unknown command '%s'." RKEOL, commandString);
+                        }
                         break;
                 }
                 break;
-- 
2.43.0


From f4a3551d3280f0c6c919e0b6f2a2ae34dd2c252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:07 +0000
Subject: [PATCH 180/183] fix: refuse ring filters that have no coefficients

---
 source/RKRadar.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 6c1569f..3b87cc7 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1717,6 +1717,10 @@ int RKSetProductRecorder(RKRadar *radar, int (*productRecorder)(RKProduct *, con
 }
 
 int RKSetPulseRingFilterByType(RKRadar *radar, RKFilterType type, const uint32_t gateCount) {
+    if (type >= RKFilterTypeCount && type != RKFilterTypeTest1) {
+        RKLog("Error. Filter type %d has no coefficients.\n", type);
+        return RKResultFailedToSetFilter;
+    }
     RKIIRFilter *filter = (RKIIRFilter *)malloc(sizeof(RKIIRFilter));
     if (filter == NULL) {
         RKLog("Error. Unable to allocate a filter.\n");
@@ -2264,7 +2268,11 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                     case 'f':
                         // 'df' - DSP filter
                         k = sscanf(parameter, "%d %u", &ival, &u32);
-                        if (k == 2) {
+                        if (k > 0 && (ival < 0 || (ival >= RKFilterTypeCount && ival != RKFilterTypeTest1))) {
+                            if (string) {
+                                sprintf(string, "NAK. Ring filter %d is not available." RKEOL, ival);
+                            }
+                        } else if (k == 2) {
                             filterType = ival;
                             RKLog("type = %u   u32 = %u\n", filterType, u32);
                             RKSetPulseRingFilterByType(radar, filterType, u32);
-- 
2.43.0


From d33c1fc01dd7770f19880f449459d878bcaf2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:26 +0000
Subject: [PATCH 181/183] fix: use only the health nodes the radar has

---
 source/RKRadar.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 3b87cc7..828219c 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -584,6 +584,8 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
     }
     if (radar->desc.healthNodeCount == 0 || radar->desc.healthNodeCount > RKHealthNodeCount) {
         radar->desc.healthNodeCount = RKHealthNodeCount;
+    } else if (radar->desc.healthNodeCount < RKHealthNodeUser1) {
+        radar->desc.healthNodeCount = RKHealthNodeUser1;
     }
     if (radar->desc.controlCapacity > RKMaximumControlCount) {
         radar->desc.controlCapacity = RKMaximumControlCount;
@@ -2860,7 +2862,7 @@ RKConfig *RKGetLatestConfig(RKRadar *radar) {
 //
 RKHealthNode RKRequestHealthNode(RKRadar *radar) {
     RKHealthNode node = RKHealthNodeUser1 + radar->healthNodeCount;
-    if (node >= RKHealthNodeCount) {
+    if (node >= radar->desc.healthNodeCount) {
         RKLog("Error. No more health node available.\n");
         return (RKHealthNode)-1;
     }
@@ -2882,6 +2884,10 @@ RKHealth *RKGetVacantHealth(RKRadar *radar, const RKHealthNode node) {
         //exit(EXIT_FAILURE);
         return NULL;
     }
+    if (node >= radar->desc.healthNodeCount) {
+        RKLog("Error. Health node %d does not exist.\n", node);
+        return NULL;
+    }
     radar->healthNodes[node].active = true;
     uint32_t index = radar->healthNodes[node].index;
     RKHealth *health = &radar->healthNodes[node].healths[index];
-- 
2.43.0


From 799039c58b8694c31c8079075648875f79ee9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:31 +0000
Subject: [PATCH 182/183] fix: forget the inspector that a restart ended

RKSoftRestart() frees the system inspector and starts another one, which
asks for the memory usage of the radar and with it looks at the freed
engine until the new one is assigned.
---
 source/RKRadar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 828219c..79f0518 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2142,6 +2142,7 @@ int RKSoftRestart(RKRadar *radar) {
 
     // Stop the inspector
     RKSimpleEngineFree(radar->systemInspector);
+    radar->systemInspector = NULL;
 
     // Stop all data acquisition and DSP-related engines
     RKSweepEngineStop(radar->sweepEngine);
-- 
2.43.0


From 0d1958024603d8db6d43fffcf5dd4c27b539703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:04 +0000
Subject: [PATCH 183/183] fix: process with the lag choice that was set last

The cores of the moment engine read userLagChoice only when they start,
so that a command like 'dm 2' to a live radar was acknowledged but
MultiLag went on with the lags from before.
---
 source/RKMomentEngine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index a67567d..74d3485 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -464,6 +464,7 @@ static void *momentEngineCore(void *in) {
             }
             // RKLog("%s noise = %.4f %.4f \n", me->name, space->noise[0], space->noise[1]);
             // Call the moment processor
+            space->userLagChoice = engine->userLagChoice;
             k = engine->momentProcessor(space, pulses, path.length);
             // RKLog("%s Processed %d samples\n", me->name, k);
             if (k != path.length) {
-- 
2.43.0


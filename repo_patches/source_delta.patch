From 8db3d40b4c8c6f225f24001d0742aa3d9ba21852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 01/79] fix: dayOfWeek returned values outside 1-7 for dates
 before 31Dec1899

---
 heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c b/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
index 6aa505f..630b58f 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
@@ -27,7 +27,11 @@ int dayOfWeek(int julian)
 {
 	int iday;
 
-	iday = (julian % 7) + 1;
-	return iday;
+	iday = julian % 7;
+	if (iday < 0) {
+		//  Dates before 31Dec1899 have negative julian days
+		iday += 7;
+	}
+	return iday + 1;
 }
 
-- 
2.43.0


From 0544ca6ac01e64d1042df148dcc28d118b307877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 02/79] fix: numberPeriods counted months as years for yearly
 intervals

---
 heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
index 8e39f0d..a2205ed 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
@@ -161,9 +161,9 @@ int numberPeriods(int intervalSeconds,
 		}
 		else if ((intervalMinutes > 520000) && (intervalMinutes < 530000)) {
 			//  Yearly
-			numberPeriods = (yearEnd - yearStart) +
-							((monthEnd - monthStart) +
-							((dayEnd - dayStart) / 28) / 12);
+			numberPeriods = (((yearEnd - yearStart) * 12) +
+							(monthEnd - monthStart) +
+							((dayEnd - dayStart) / 28)) / 12;
 		}
 		else {
 			//  Unknown - just do straight day computation 
-- 
2.43.0


From 6deb18986fa79a406b564b4830b2219f4b896247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 03/79] fix: rewriting a record compared and released its space
 in ints instead of longs, overwriting neighbouring records

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index b51104d..8f7cc07 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -252,23 +252,20 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 
 	//  Compute original and new record sizes.
-	originalSize =
-		(int)info[zdssInfoKeys.kinfoInternalHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoHeader2Number] +
-		(int)info[zdssInfoKeys.kinfoUserHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoAllocatedSize];
-	newSize =
-		ztransfer->internalHeaderNumber +
-		ztransfer->header2Number +
-		ztransfer->userHeaderNumber +
-		ztransfer->totalAllocatedSize;
-
+	originalSize = numberLongsInInts((int)info[zdssInfoKeys.kinfoInternalHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoHeader2Number]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoUserHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]);
+	newSize = numberLongsInInts(ztransfer->internalHeaderNumber) +
+		numberLongsInInts(ztransfer->header2Number) +
+		numberLongsInInts(ztransfer->userHeaderNumber) +
+		numberLongsInInts(ztransfer->totalAllocatedSize);
 
 	if (newSize > originalSize) {
 		//  Need to expand!
 /**/		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			zmessageDebug(ifltab, DSS_FUNCTION_zwriteExisting_ID, "Record size has increased - Expanding", "");
-			longSize = numberLongsInInts(newSize);
+			longSize = newSize;
 			_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, "%d;   New Size: %d 32-bit words;  %d 64-bit words",
 				originalSize, newSize, longSize);
 			zmessageDebug(ifltab, DSS_FUNCTION_zwriteExisting_ID,  "Old size: ", messageString);
@@ -286,8 +283,7 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 
 		//  Check that the old info and data areas are contiguous.  If so, we can reclaim their space
 		//  A rename op may have moved the info block
-		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)(originalSize + numberInfo)) ==
-			(info[zdssInfoKeys.kinfoValues1Address] + info[zdssInfoKeys.kinfoAllocatedSize])) {
+		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)numberInfo) == info[zdssInfoKeys.kinfoInternalHeadAddress]) {
 			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize + numberInfo));
 		}
 		else {
@@ -436,7 +432,7 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			//  (The allocated space on input should be the data size,
 			//  not the size allocated in the earlier record.)
 			diff = originalSize - newSize;
-			ztransfer->totalAllocatedSize += diff;
+			ztransfer->totalAllocatedSize += numberIntsInLongs(diff);
 		}
 		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			_snprintf_s(messageString, sizeof(messageString), _TRUNCATE,
-- 
2.43.0


From 0655ff2f480dbcf5d5dd3d187553a24019a8c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 04/79] fix: deleting a renamed record released file space that
 belonged to other records

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 9d08a8b..74f36d3 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -209,14 +209,14 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 				endAddress1 = ifltab[zdssKeys.kaddInfoLastPath] + (long long)releasedAmount;
 				endAddress2 = info[zdssInfoKeys.kinfoValues1Address] +
 					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues1Number]) +
-					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]);
+					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]) +
+					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues3Number]);
 				if (endAddress1 == endAddress2) {
 					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
 				}
 				else {
-					//  Shouldn't have this happen
-					//fileHeader[zdssFileKeys.kdead] += releasedAmount;
-					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
+					//  A rename moved the info block away from the data; only count the space
+					fileHeader[zdssFileKeys.kdead] += releasedAmount;
 				}
 			}
 			//  Decrement counters
-- 
2.43.0


From 410052b34b164f4d3dd18884e3b6d9b402ea8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 05/79] fix: reading an odd-length user header wrote one word
 past a caller's array

---
 heclib/heclib_c/src/Internal/zreadInternal.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInternal.c b/heclib/heclib_c/src/Internal/zreadInternal.c
index 8964f36..8d66af0 100644
--- a/heclib/heclib_c/src/Internal/zreadInternal.c
+++ b/heclib/heclib_c/src/Internal/zreadInternal.c
@@ -377,14 +377,8 @@ int zreadInternal(long long *ifltab, zStructTransfer* ztransfer,
 				}
 				bufferAction = BUFF_NO_ACTION;
 			}
-			if (isOdd(ztransfer->userHeaderNumber)) {
-				status = zgetBuff(ifltab, ztransfer->info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
-					ztransfer->userHeaderNumber+1, 1, bufferAction, bufferControl, buffer);
-			}
-			else {
-				status = zgetBuff(ifltab, ztransfer->info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
-					ztransfer->userHeaderNumber, 1, bufferAction, bufferControl, buffer);
-			}
+			status = zgetBuff(ifltab, ztransfer->info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
+				ztransfer->userHeaderNumber, 1, bufferAction, bufferControl, buffer);
 			if (zisError(status)) {
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInternal_ID);
 			}
-- 
2.43.0


From cdbcaa0bcf491583cd4b2c00781002b888421ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 06/79] fix: reusing a deleted pathname's bin slot for a
 shorter pathname could unlink the following bins and lose their records

---
 heclib/heclib_c/src/Internal/zcheckInternal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zcheckInternal.c b/heclib/heclib_c/src/Internal/zcheckInternal.c
index ebaf8e0..acbeacd 100644
--- a/heclib/heclib_c/src/Internal/zcheckInternal.c
+++ b/heclib/heclib_c/src/Internal/zcheckInternal.c
@@ -403,7 +403,7 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 				//  Did we already find space?
 			   if (ifltab[zdssKeys.kbinWithSpace] == 0) {
 				   //  Is this spot big enough?
-					if (pathSizeIn <= pathnameSize) {
+					if (pathSizeIn == pathnameSize) {
 						//  Save the first address where this is found
 						//  (Note - this operation is only valid with the current pathname)
 						ifltab[zdssKeys.kbinWithSpace] = binAddress;
-- 
2.43.0


From 7931ca98e3f5548416ad3fd9dbfeba3ebadca4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 07/79] fix: zrename deleted the target when the source was
 missing, and read before its buffer on case-only renames

---
 heclib/heclib_c/src/Public/zpathnameSetPart.c |  2 +-
 heclib/heclib_c/src/Public/zrename.c          | 71 +++++++++++--------
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index 3cd2d92..fc82afe 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -103,7 +103,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		pathname[endPath] = '\0';
 		endPath--;
 		//  Move the end backwards
-		for (i=endPath; i>=end; i--) {
+		for (i=endPath; i>=end-1+diff; i--) {
 			pathname[i] = pathname[i-diff];
 		}
 		//  Now copy the new part into the old part's position
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 97396aa..3e70fe2 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -117,9 +117,45 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 			zdssErrorSeverity.MEMORY_ERROR,
 			newPathname, "Allocating space for pathname");
 	}
-	
+	//  Be sure the record to rename exists, before anything with the new name is removed
+	ifltab[zdssKeys.kaddInfoLastPath] = 0;
+	status = zcheckInternal(ifltab, oldPathname, 1);
+	if (zisError(status)) {
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
+	if (status != STATUS_RECORD_FOUND) {
+		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
+			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
+		}
+		free(newPath);
+		return STATUS_RECORD_NOT_FOUND;
+	}
+
+	//  If the pathname is time series, do not allow the D or E parts to be renamed!
+	//  That data has to be transformed, not renamed
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
+	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
+		free(newPath);
+		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
+		start = positions[5];
+		end = positions[6];
+		len = (int)(strlen(newPathname) + strlen(oldPathname)) + 1;
+		newPath = calloc(len, 1);
+		if (!newPath) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+				zdssErrorSeverity.MEMORY_ERROR,
+				newPathname, "Allocating space for modified pathname");
+		}
+		stringCopy(newPath, len, newPathname, positions[3]);
+		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
+		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
+		stringCat(newPath, len, &newPathname[start], (end - start));
+	}
+
 	int lenOld = strnlen_hec(oldPathname, MAX_PATHNAME_LENGTH);
-	int lenNew= strnlen_hec(newPathname, MAX_PATHNAME_LENGTH);
+	int lenNew= strnlen_hec(newPath, MAX_PATHNAME_LENGTH);
 
 	if (lenOld == lenNew) {
 		char tmpPath[MAX_PATHNAME_LENGTH];
@@ -129,7 +165,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		// what is the oldpathname representation on disk?
 
 
-		int samePathInsensitive = zstringCompare(oldPathname, newPathname, lenOld);
+		int samePathInsensitive = zstringCompare(oldPathname, newPath, lenOld);
 
 		if (samePathInsensitive) {
 			// if the rename is just chaning case, we need a temporay path, (using unique -Fpart below)
@@ -150,7 +186,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 				free(newPath);
 				return status;
 			}
-			status = zrename(ifltab, tmpPath, newPathname);
+			status = zrename(ifltab, tmpPath, newPath);
 			free(newPath);
 			return status;
 		}
@@ -158,13 +194,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	
 	//  Be sure the new pathname does not already exist
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-	status = zcheckInternal(ifltab, newPathname, 1);
+	status = zcheckInternal(ifltab, newPath, 1);
 	if (zisError(status)) {
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
 	if (status == STATUS_RECORD_FOUND) {
-		status = zdeleteInternal(ifltab, newPathname, 0);
+		status = zdeleteInternal(ifltab, newPath, 0);
 		if (zisError(status)) {
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
@@ -210,29 +246,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 
-	//  If the pathname is time series, do not allow the D or E parts to be renamed!
-	//  That data has to be transformed, not renamed
-	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
-	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
-		free(newPath);
-		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
-		start = positions[5];
-		end = positions[6];
-		len = (int)strlen(newPathname) + 12;
-		newPath = calloc(len, 1);
-		if (!newPath) {
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
-				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
-				zdssErrorSeverity.MEMORY_ERROR,
-				newPathname, "Allocating space for modified pathname");
-		}
-		stringCopy(newPath, len, newPathname, positions[3]);
-		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
-		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
-		stringCat(newPath, len, &newPathname[start], (end - start));
-	}
-
-
 	//  First, mark the pathname bin status as remamed
 	address = ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus;
 	binStatus = REC_STATUS_RENAMED;
-- 
2.43.0


From 4f347f7d4f4721752e772d7b14ee0df99cad5a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 08/79] fix: catalog selections by type were ignored, and
 sorted selections overwrote the sort list of the whole catalog; suffix
 filters read before a shorter part

---
 heclib/heclib_c/src/Internal/zcatComparePath.c  | 3 +++
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 8 ++++++--
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 3 +++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatComparePath.c b/heclib/heclib_c/src/Internal/zcatComparePath.c
index 6761858..f2cce58 100644
--- a/heclib/heclib_c/src/Internal/zcatComparePath.c
+++ b/heclib/heclib_c/src/Internal/zcatComparePath.c
@@ -173,6 +173,9 @@ int zcatComparePath(const char *cpath, int *partAction, int *lengths,
 			}
 			else if (partAction[i] == 3) {
 				//  Ends With
+				if (len < lengths[i]) {
+					return 0;
+				}
 				istart = len - lengths[i];
 				result = zstringCompare(&pathPart[istart], stringToFind, (size_t)lengths[i]);
 				if (!result) {
diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 986483d..d03df3b 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -94,6 +94,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	char cline[400];
 	char *tempUnsorted;
 	char *tempSorted;
+	int boolSelection;
 	zStructCatalog *nonSortedStruct=0;
 	FILE *sortedFP;
 
@@ -105,6 +106,9 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 								zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for nonSortedStruct");
 	}
 
+	//  The sort list covers the complete catalog only, not a selection by status or data type
+	boolSelection = sortedStruct && ((sortedStruct->statusWanted != 0) || (sortedStruct->typeWantedStart != 0));
+
 	//  Get current status of sort list stored in DSS file
 		//  0 = None (no sort list available)
 		//  1 = List fully sorted and ready to use (without further sorting)
@@ -118,7 +122,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	}
 	else {
 		fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
-		if ((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection)) {
+		if ((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection) || boolSelection) {
 			sortListStatus = 0;
 		}
 		else {
@@ -346,7 +350,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 			}
 		}
 		if (zgetVersion(ifltab) == 7) {
-			if ((numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
+			if (!boolSelection && (numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
 				sortedStruct->sortAddresses = (long long*)calloc((size_t)sortedStruct->listSize, LONG_SIZE);
 				if (!sortedStruct->sortAddresses) {
 					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 6203871..13604b7 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -341,6 +341,9 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 								}
 							}
 						}
+						else {
+							boolFound = 0;
+						}
 					}
 					//  If it is a deleted record, be sure the info area is still there
 					if (boolFound && (statusWanted == REC_STATUS_DELETED) && (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE)) {
-- 
2.43.0


From 71be1def095cbd3b6e650c939f45788819b4f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 09/79] fix: every sorted catalog leaked two file descriptors

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index d03df3b..cca245a 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -251,6 +251,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempUnsorted);
 		return -1;
 	}
+	close(fileId);
 	tempSorted=(char*)malloc(32*sizeof(char));
 	memset( tempSorted, 0, sizeof(tempSorted));
 	strcpy( tempSorted, "/tmp/cat_sorted-XXXXXX");
@@ -262,6 +263,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempSorted);
 		return -1;
 	}
+	close(fileId);
 #endif
 	if (!tempUnsorted) {
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
-- 
2.43.0


From 95f5a8b20064411193fc0746c21ef9703bb28178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 10/79] fix: zundelete stored an invalid record status and
 miscounted the record's parts

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 74f36d3..0fd36df 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -76,7 +76,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	if (boolUndelete) {
 		functionID = DSS_FUNCTION_zundelete_ID;
-		deleteStatus = (long long)REC_STATUS_VALID;
+		deleteStatus = (long long)REC_STATUS_PRIMARY;
 		readAction = REC_STATUS_DELETED;
 	}
 	else {
@@ -196,12 +196,12 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 			if (fileHeader[zdssFileKeys.kcatSortStatus] > 0) {
 				fileHeader[zdssFileKeys.kcatSortStatus] = 3;
 			}
-			fileHeader[zdssFileKeys.knumberInternalHeader]++;
-			fileHeader[zdssFileKeys.knumberHeader2]++;
-			fileHeader[zdssFileKeys.knumberDataArea3]++;
-			fileHeader[zdssFileKeys.knumberUserHeader]++;
-			fileHeader[zdssFileKeys.knumberDataArea1]++;
-			fileHeader[zdssFileKeys.knumberDataArea2]++;
+			if (info[zdssInfoKeys.kinfoInternalHeadNumber] > 0)	fileHeader[zdssFileKeys.knumberInternalHeader]++;
+			if (info[zdssInfoKeys.kinfoHeader2Number] > 0)	fileHeader[zdssFileKeys.knumberHeader2]++;
+			if (info[zdssInfoKeys.kinfoValues3Number] > 0)	fileHeader[zdssFileKeys.knumberDataArea3]++;
+			if (info[zdssInfoKeys.kinfoUserHeadNumber] > 0)	fileHeader[zdssFileKeys.knumberUserHeader]++;
+			if (info[zdssInfoKeys.kinfoValues1Number] > 0)	fileHeader[zdssFileKeys.knumberDataArea1]++;
+			if (info[zdssInfoKeys.kinfoValues2Number] > 0)	fileHeader[zdssFileKeys.knumberDataArea2]++;
 		}
 		else {
 			if (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE) {
-- 
2.43.0


From 9a30b5a973c077385e986e26c09b27073b4332cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 11/79] fix: storing floats into a double regular record keeps
 the other values' precision

---
 .../heclib_c/src/Internal/ztsRegStoreBlock.c  | 102 +++++++++---------
 1 file changed, 51 insertions(+), 51 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 57a197d..a2074ee 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -268,6 +268,10 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	int numberHeaderRead3;
 	
 
+	zStructRecordBasics* rb;
+	double *dblValues;
+	int recordType;
+
 	//////////////  FIX ME - do I need buff?????????
 	int buffer[500];
 	long long bufferControl[4];
@@ -275,6 +279,42 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	bufferControl[BUFF_SIZE] = 500;
 
 
+	//  Support writing floats into a double record.  Work in doubles, so that the
+	//  values of the block that are not being replaced keep their precision
+	if ((dataType == DATA_TYPE_RTS) && tss->floatValues && (tss->doubleValues == NULL)) {
+		rb = zstructRecordBasicsNew(pathname);
+		status = zgetRecordBasics(ifltab, rb);
+		recordType = rb->recordType;
+		zstructFree(rb);
+		if ((status == STATUS_RECORD_FOUND) && (recordType == DATA_TYPE_RTD)) {
+			dblValues = (double*)calloc((size_t)numberToStore + 1, sizeof(double));
+			if (!dblValues) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+										zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+										zdssErrorSeverity.MEMORY_ERROR, pathname, "double values array");
+			}
+			convertDataArray(values, (int *)dblValues, numberToStore, 1, 2);
+			i = internalHeader[INT_HEAD_valueSize];
+			ival = internalHeader[INT_HEAD_valueElementSize];
+			internalHeader[INT_HEAD_valueSize] = 2;
+			internalHeader[INT_HEAD_valueElementSize] = 2;
+			status = ztsRegStoreBlock(ifltab, tss, pathname, numberToStore,
+									(int *)dblValues, 2, 2,
+									quality, qualityElementSize, notes, inoteElementSize,
+									cnotes, cnotesSize, lengthCNotes,
+									profileDepths, profileDepthsSize, profileDepthsNumber,
+									internalHeader, userHeader, userHeaderNumber,
+									positionInValues, numberInBlock,
+									startJulian, startSeconds, intervalSeconds,
+									julianBlockDate, blockStartPosition,
+									boolReadBlock, DATA_TYPE_RTD, storageFlag);
+			internalHeader[INT_HEAD_valueSize] = i;
+			internalHeader[INT_HEAD_valueElementSize] = ival;
+			free(dblValues);
+			return status;
+		}
+	}
+
 	//  CHECK ME - NEED to be sure data types (RTS vs profile) match!!!
 
 	if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
@@ -835,57 +875,17 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 		internalHeader[INT_HEAD_blockEndPosition] = blockStartPosition + numberToStore - 1;
 		ipos = firstValid * valueSize;
 
-		zStructRecordBasics* rb = zstructRecordBasicsNew(pathname);
-		status = zgetRecordBasics(ifltab, rb);
-
-		int recordType = rb->recordType;
-		zstructFree(rb);
-
-		if ( status == STATUS_RECORD_FOUND && recordType == DATA_TYPE_RTD
-			&& dataType == DATA_TYPE_RTS
-			&& tss->floatValues
-			&& tss->doubleValues == NULL) {
-			int oldINT_HEAD_valueSize = internalHeader[INT_HEAD_valueSize];
-			int oldINT_HEAD_valueElementSize = internalHeader[INT_HEAD_valueElementSize];
-
-			internalHeader[INT_HEAD_valueSize] = 2;
-			internalHeader[INT_HEAD_valueElementSize] = 2;
-			// Support writing floats into a double record 
-			double* dblValues = (double*)calloc(numberToStore, sizeof(double));
-			if (!dblValues) {
-				if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-					zmessageDebug(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID, "Memory Error storing ", pathname);
-				}
-			}
-			convertDataArray((void*)&values[ipos], (void*)dblValues, numberToStore, 1, 2);
-			status = ztsWriteBlock(ifltab, tss, pathname,
-				&ival, 0, numberToStore,
-				(int*)dblValues, 2,
-				quality, qualityElementSize,
-				notes, inoteElementSize,
-				cnotesToStore, cnotesToStoreLen,
-				profileDepths, profileDepthsSize,
-				internalHeader,
-				userHeader, userHeaderNumber,
-				0, numberInBlock,
-				DATA_TYPE_RTD);
-			free(dblValues);
-			internalHeader[INT_HEAD_valueSize] = oldINT_HEAD_valueSize;
-			internalHeader[INT_HEAD_valueElementSize] = oldINT_HEAD_valueElementSize;
-		}
-		else {
-			status = ztsWriteBlock(ifltab, tss, pathname,
-				&ival, 0, numberToStore,
-				&values[ipos], valueSize,
-				quality, qualityElementSize,
-				notes, inoteElementSize,
-				cnotesToStore, cnotesToStoreLen,
-				profileDepths, profileDepthsSize,
-				internalHeader,
-				userHeader, userHeaderNumber,
-				0, numberInBlock,
-				dataType);
-		}
+		status = ztsWriteBlock(ifltab, tss, pathname,
+			&ival, 0, numberToStore,
+			&values[ipos], valueSize,
+			quality, qualityElementSize,
+			notes, inoteElementSize,
+			cnotesToStore, cnotesToStoreLen,
+			profileDepths, profileDepthsSize,
+			internalHeader,
+			userHeader, userHeaderNumber,
+			0, numberInBlock,
+			dataType);
 	}
 	else {
 		//  All missing
-- 
2.43.0


From 090713cc24de12fd99ff605b54358bcfda7e86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 12/79] fix: replacing part of an irregular block keeps the
 later values and their notes

---
 heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c | 14 +++++---------
 heclib/heclib_c/src/Internal/ztsIrregReadBlock.c   |  2 ++
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index cc7f8c0..1ea1353 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -419,6 +419,10 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 		//  Replace a portion (or the entire) block
 		if (numberToStore > 0) {
 			for (i=0; i<combinedTotal; i++) {
+				//  Has everything that was read been copied?
+				if (icountRead >= numberRead) {
+					break;
+				}
 				if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 					_snprintf_s(messageString, sizeof(messageString), _TRUNCATE,
 						"Replace; Count: %d, read: %d, toStore %d, total: %d, timeToStore %d, timesRead %d",
@@ -431,7 +435,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				//   is (timesRead[icountRead] < tss->timeWindow->startJulian)?
 				icompare = compareTimes(julianStartBlockDate, timesRead[icountRead], 0, timeGranularityRead,
 					tss->timeWindow->startJulian, tss->timeWindow->startTimeSeconds, 0, 1);
-				if ((icountRead < numberRead) && (icompare < 0) && (timesRead[icountRead] < timesToStore[0]) && !boolFromStartOfBlock) {
+				if ((icompare < 0) && (timesRead[icountRead] < timesToStore[0]) && !boolFromStartOfBlock) {
 					//  Copy "read"
 					if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 						convertDataType((void *)&valuesRead[icountRead], (void *)&f, valueElementSize, 1);
@@ -485,7 +489,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 		}
 
 		//  Now we have the start of the part to replace, copy the block to store
-		combinedTotal -= icountTotal;
 		for (i=0; i<combinedTotal; i++) {
 			if (icountStore < numberToStore) {
 				if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
@@ -530,11 +533,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 						icnotesPosOut += ispos;
 						icnotesPosToStore += ispos;
 					}
-					//  Count the characters in the read string and increment
-					if (cnotesReadLen > 0) {
-						ispos = copyLines(cdummy, (size_t)0, &cnotesRead[icnotesPosRead], (size_t)(cnotesReadLen - icnotesPosRead), 1);
-						icnotesPosRead += ispos;
-					}
 				}
 				icountTotal++;
 				icountStore++;
@@ -547,7 +545,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 		// Copy the remaining read data, if any
 		if (!boolToEndOfBlock) {
 			numberLeft = numberToStore + numberRead - icountTotal;
-			icnotesPosRead = 0;
 			for (i=0; i<numberLeft; i++) {
 				if (icountTotal >= combinedTotal) {
 					break;
@@ -559,7 +556,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 							ispos = copyLines(cdummy, (size_t)0, &cnotesRead[icnotesPosRead], (size_t)(cnotesReadLen - icnotesPosRead), 1);
 							icnotesPosRead += ispos;
 						}
-/////////////////   FIX ME - NEED TO MOVE THE CHARS COUNT FORWARD TOO!!!
 					}
 					else {
 						if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 6fbefb5..9c517ce 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -268,6 +268,8 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 	}
 
 
+	*totalNumberCnotesRead = 0;
+
 	//  Was the info block just read?
 	if (info[0] == DSS_INFO_FLAG) {
 		status = STATUS_RECORD_FOUND;
-- 
2.43.0


From 8a0b6bd20127f9bb33635b2188fe75e59454991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 13/79] fix: the first and last valid times of a record include
 the time offset

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index a2074ee..1412224 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -850,6 +850,11 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 
 		//  Now store the block in the DSS file
 		// --------------   Main Write ------------------
+		//  The values are at the time offset from the standard times
+		if (internalHeader[INT_HEAD_timeOffset] > 0) {
+			ztsOffsetAdjustToOffset(internalHeader[INT_HEAD_timeOffset], intervalSeconds, &julianFirstValue, &secondsFirstValue);
+			ztsOffsetAdjustToOffset(internalHeader[INT_HEAD_timeOffset], intervalSeconds, &julianLastValue, &secondsLastValue);
+		}
 		ifltab[zdssKeys.kdataFirstDate] = i4toi8(julianFirstValue, secondsFirstValue);
 		ifltab[zdssKeys.kdataLastDate] = i4toi8(julianLastValue, secondsLastValue);
 
-- 
2.43.0


From 5c4b113c98552fe9deccb83331f7ab2fa25ed2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 14/79] fix: the first and last valid times of a merged block
 follow the stored values' times

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 1412224..3730e8f 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -820,11 +820,13 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 											notes, inoteElementSize,
 											cnotesToStore, cnotesToStoreLen,
 											&firstValid, &lastValid);
-		///////////////////  FIX ME - use time offset!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
-		incrementTime(intervalSeconds, firstValid, julianBlockDate, intervalSeconds,
+		//  (the values given start at blockStartPosition in the block)
+		posRelativeToStart = positionInValues + firstValid - blockStartPosition;
+		incrementTime(intervalSeconds, posRelativeToStart, startJulian, startSeconds,
 						&julianFirstValue, &secondsFirstValue);
 		//  And the date/time of the last value we're storing	
-		incrementTime(intervalSeconds, lastValid, julianBlockDate, intervalSeconds,
+		posRelativeToStart = positionInValues + lastValid - blockStartPosition;
+		incrementTime(intervalSeconds, posRelativeToStart, startJulian, startSeconds,
 						&julianLastValue, &secondsLastValue);
 		
 		blockStartPosition = 0;
-- 
2.43.0


From 4cc0cc2912775cf08ad1644bfa56aafec7118540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:02 +0000
Subject: [PATCH 15/79] fix: ztsGetSizes reports the number of values in the
 time window of a regular series

---
 heclib/heclib_c/src/DssInterface/v6and7/ztsGetSizes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/ztsGetSizes.c b/heclib/heclib_c/src/DssInterface/v6and7/ztsGetSizes.c
index f6bb2fb..2b7e9b6 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/ztsGetSizes.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/ztsGetSizes.c
@@ -56,6 +56,9 @@ int ztsGetSizes(long long *ifltab, zStructTimeSeries *tss, zStructRecordSize *ti
 	int	status = ztsGetSizesInternal (ifltab, tss->timeWindow,  timeSeriesRecordSizes);
 
 	if (status >= 0) {
+		if (tss->timeWindow && (tss->timeWindow->intervalSeconds > 0) && (timeSeriesRecordSizes->logicalNumberValues > 0)) {
+			timeSeriesRecordSizes->logicalNumberValues = tss->timeWindow->numberValues;
+		}
 		return STATUS_OKAY;
 	}
 	return status;
-- 
2.43.0


From a6628c1e49bb7071b477c12c135d30168ae81e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 16/79] fix: labels of part of a paired data record are stored
 and retrieved whole

---
 heclib/heclib_c/src/Public/zpdRetrieve.c |  2 +-
 heclib/heclib_c/src/Public/zpdStore.c    | 60 ++++++++++--------------
 2 files changed, 27 insertions(+), 35 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 4e28509..a9022f3 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -375,7 +375,7 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 			startCurve = pds->startingCurve - 1;
 			endCurve = pds->endingCurve;
 			if (startCurve < 0) startCurve = 0;
-			if (endCurve < 0) endCurve = 0;
+			if ((endCurve <= 0) || (endCurve > pds->numberCurves)) endCurve = pds->numberCurves;
 		}
 		count = 0;
 		ipos = 0;
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 4eddf2a..76f79be 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -232,7 +232,6 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 
 	int iposRead;
 	int iposPds;
-	int curveNumber;
 	int originalSize;
 	int newSize;
 	int len1;
@@ -1064,52 +1063,45 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		//  If labels are being stored, add them in
 		//  len = pds->labelsLength  internalHeader[INT_HEAD_pdLabelsLength] = pds->labelsLength;
 		if (pds->labelsLength > 0) {
-			len = pds->labelsLength + ztransfer->internalHeader[INT_HEAD_pdLabelsLength];
+			labelsLength = ztransfer->internalHeader[INT_HEAD_pdLabelsLength];
+			numberCurves = ztransfer->internalHeader[INT_HEAD_pdNumberCurves];
+			//  A curve without a label has an empty one
+			len = pds->labelsLength + labelsLength + numberCurves;
 			clabels = (char *)calloc((size_t)len, 1);
-			clabelsRead = (char*)calloc(ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 1);
-			charInt(ztransfer->header2, clabelsRead, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 0, 0, 0);
+			clabelsRead = (char*)calloc((size_t)labelsLength + 1, 1);
+			if (labelsLength > 0) {
+				charInt(ztransfer->header2, clabelsRead, labelsLength, labelsLength, 0, 0, 0);
+			}
 			ipos = 0;
 			iposRead = 0;
 			iposPds = 0;
-			curveNumber = 1;
-			for (i=0; i<len; i++) {
+			for (i=0; i<numberCurves; i++) {
+				len1 = 0;
+				while ((iposRead + len1 < labelsLength) && clabelsRead[iposRead + len1]) len1++;
 				//  Are we at a curve to add our label?
-				if ((curveNumber >= pds->startingCurve) && (curveNumber <= pds->endingCurve)) {
-					len1 = (int)strlen(&pds->labels[iposPds]);
-					for (j=0; j<len1; j++) {
-						clabels[ipos++] = pds->labels[iposPds++];
+				if ((i >= startCurve) && (i < endCurve)) {
+					len2 = 0;
+					while ((iposPds + len2 < pds->labelsLength) && pds->labels[iposPds + len2]) len2++;
+					for (j=0; j<len2; j++) {
+						clabels[ipos++] = pds->labels[iposPds + j];
 					}
-					clabels[ipos++] = '\0';
-					len2 = (int)strlen(&clabelsRead[iposRead]);
-					iposRead += len2 + 1;
-					curveNumber++;
+					iposPds += len2;
+					if (iposPds < pds->labelsLength) iposPds++;
 				}
 				else {
-					clabels[ipos] = clabelsRead[iposRead++];
-					if (clabels[ipos] == '\0') curveNumber++;
-					ipos++;
-				}
-				if (curveNumber > ztransfer->internalHeader[INT_HEAD_pdNumberCurves]) {
-					break;
-				}
-				if (ipos >= len) {
-					break;
-				}
-				if (iposRead >= (ztransfer->header2Number * 4)) {
-					break;
+					for (j=0; j<len1; j++) {
+						clabels[ipos++] = clabelsRead[iposRead + j];
+					}
 				}
+				clabels[ipos++] = '\0';
+				iposRead += len1;
+				if (iposRead < labelsLength) iposRead++;
 			}
 			if (clabelsRead) free(clabelsRead);
 			clabelsRead = 0;
 			originalSize = (int)ztransfer->info[zdssInfoKeys.kinfoHeader2Number];
-			if (ipos > ztransfer->internalHeader[INT_HEAD_pdLabelsLength]) {
+			if (ipos > labelsLength) {
 				newSize = numberIntsInBytes(ipos);
-				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = ipos;
-			}
-			else {
-				newSize = originalSize;
-			}
-			if (newSize > originalSize) {
 				//  This is a pretty significant issue; paired data records are not designed
 				//  to be efficient at expansion
 				//  This may be a large data set and re-writing a expanded set may take a lot of resources
@@ -1157,7 +1149,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				//  Now we have the full record.  Replace the label array
 				free(ztransfer->header2);
 				ztransfer->header2 = (int *)calloc(newSize + 2, 4);
-				charInt(clabels, ztransfer->header2, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], (newSize * 4), 1, 1, 0);
+				charInt(clabels, ztransfer->header2, ipos, (newSize * 4), 1, 1, 0);
 				ztransfer->header2Number = newSize;
 				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = newSize * 4;
 				//  RE-write the whole thing
-- 
2.43.0


From 955867c4e87ac1f2d5dfe2de4a19721edc1b5d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 17/79] fix: a fraction of a second no longer rounds the
 seconds of a time text up

---
 .../src/Utilities/DateTime/timeStringToSeconds.c  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/timeStringToSeconds.c b/heclib/heclib_c/src/Utilities/DateTime/timeStringToSeconds.c
index 13c44d0..96c9aca 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/timeStringToSeconds.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/timeStringToSeconds.c
@@ -44,6 +44,21 @@ int timeStringToSeconds(const char *timeString)
 	//  and converts it to seconds.
 	//
 	float fseconds;
+	char wholeSeconds[20];
+	const char *fraction;
+	size_t len;
+
+	//  A fraction of a second must not round the seconds up
+	fraction = strchr(timeString, '.');
+	if (fraction) {
+		len = fraction - timeString;
+		if (len >= sizeof(wholeSeconds)) {
+			len = sizeof(wholeSeconds) - 1;
+		}
+		memcpy(wholeSeconds, timeString, len);
+		wholeSeconds[len] = '\0';
+		timeString = wholeSeconds;
+	}
 
 	fseconds = timeStringToSecondsMills(timeString);
 
-- 
2.43.0


From 00d8122a0a0f47fd4ee88907ec69ed77666ce48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 18/79] fix: timeStringToSecondsMills rejects text with fewer
 than three digits instead of reading unset digits

---
 .../heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c b/heclib/heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c
index b0c56d1..3f851bb 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c
@@ -85,6 +85,9 @@ float timeStringToSecondsMills(const char *timeString)
 			mills = (mills * 10) + idigits[i];
 		}
 		icount = milliFound;
+		if (icount < 3) {
+			return STATUS_NOT_OKAY;
+		}
 	}
 
 
-- 
2.43.0


From 3148b751e87d5cba46b30580fa3ce50237d92d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 19/79] fix: secondsToTimeString does not leave an unterminated
 text in a buffer that is too small

---
 .../heclib_c/src/Utilities/DateTime/secondsToTimeString.c   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/secondsToTimeString.c b/heclib/heclib_c/src/Utilities/DateTime/secondsToTimeString.c
index 1b90066..f4ddde6 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/secondsToTimeString.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/secondsToTimeString.c
@@ -83,6 +83,12 @@ void secondsToTimeString(int secondsPastMidnight, int millsPastSecond, int timeS
 		return;
 	}
 
+	//  No room for the null termination
+	if ((timeStyle > 0) && (sizeofTimeString < 6)) {
+		timeString[0] = '\0';
+		return;
+	}
+
 	ihr = secondsPastMidnight / SECS_IN_1_HOUR;
 	imin = (secondsPastMidnight - (ihr * SECS_IN_1_HOUR)) / SECS_IN_1_MINUTE;
 	isec = secondsPastMidnight - (ihr * SECS_IN_1_HOUR) - (imin * SECS_IN_1_MINUTE);
-- 
2.43.0


From 0ea4da1649be6dc93e0533f4403e03ea74ce85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 20/79] fix: minutes before 1900 and milliseconds before 1970
 convert to a valid date and time

---
 heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c | 9 +++++++++
 heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c  | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c b/heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c
index d0397d2..17a255d 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c
@@ -13,8 +13,17 @@ void millsToDateTime(long long mills, char *dateString, char *timeString, size_t
 	
 	secs = mills / 1000L;
 	millsPastSecond = (int)(mills - (secs * 1000L));
+	if (millsPastSecond < 0) {
+		//  Before 01Jan1970: division truncates toward zero
+		secs--;
+		millsPastSecond += 1000;
+	}
 	jul = secs / SECS_IN_1_DAY;  // Since 01Jan1970
 	secondsPastMidnight = (int)(secs - (jul * SECS_IN_1_DAY));
+	if (secondsPastMidnight < 0) {
+		jul--;
+		secondsPastMidnight += SECS_IN_1_DAY;
+	}
 	julian = (int)jul + JULIAN_01JAN1970;  //  Since 01Jan1900
 
 	julianToDate(julian, 4, dateString, sizeofDateString);
diff --git a/heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c b/heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c
index dec668d..e0eb478 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c
@@ -11,6 +11,11 @@ void minsToDateTime(int minsSince1900, char *dateString, char *timeString, size_
 
 	julian = minsSince1900 / MINS_IN_1_DAY;
 	minsSinceMidnight = minsSince1900 - (julian * MINS_IN_1_DAY);
+	if (minsSinceMidnight < 0) {
+		//  Before 01Jan1900: division truncates toward zero
+		julian--;
+		minsSinceMidnight += MINS_IN_1_DAY;
+	}
 	julianToDate(julian, 4, dateString, sizeofDateString);
 	minutesToHourMin(minsSinceMidnight, timeString, sizeofTimeString);
 
-- 
2.43.0


From 6dbe901b6c3cb1cae5c19b1b7edadcd312dcefa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 21/79] fix: a date range in a pathname that is too long for a
 date no longer overruns the stack

---
 heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c b/heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c
index 72002a9..e859d26 100644
--- a/heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c
+++ b/heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c
@@ -117,6 +117,10 @@ int ztsGetPathTimeWindow(int version, char* pathname, size_t sizeofPathname, zts
 		}
 		//  Get the first (starting) date
 		ipos = (int)(ptr - dPart);
+		if (ipos >= (int)sizeof(date)) {
+			//  Too long for a date
+			return STATUS_NOT_OKAY;
+		}
 		stringCopy(date, sizeof(date), dPart, ipos);
 		date[ipos] = '\0';
 		startJulian = dateToJulian(date);
@@ -126,6 +130,9 @@ int ztsGetPathTimeWindow(int version, char* pathname, size_t sizeofPathname, zts
 		//  Get the ending date.  Remove the " - "
 		ipos += 3;
 		len -= ipos;
+		if (len >= (int)sizeof(date)) {
+			return STATUS_NOT_OKAY;
+		}
 		stringCopy(date, sizeof(date), &dPart[ipos], len);
 		date[len] = '\0';
 		endJulian = dateToJulian(date);
-- 
2.43.0


From 8be532d6e2ca28c8297c22cf3caf34a0b42ace1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 22/79] fix: zpathnameClean wrote the terminator past the end
 of a full buffer

---
 heclib/heclib_c/src/Public/zpathnameClean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameClean.c b/heclib/heclib_c/src/Public/zpathnameClean.c
index 4cfdb8b..8a81122 100644
--- a/heclib/heclib_c/src/Public/zpathnameClean.c
+++ b/heclib/heclib_c/src/Public/zpathnameClean.c
@@ -72,7 +72,7 @@ int zpathnameClean(char *newPathname, size_t sizeofNewPathname, const char *oldP
 			//  Count slashes
 			slashCount++;
 		}
-		if (count >= (int)sizeofNewPathname) {
+		if (count >= (int)sizeofNewPathname - 1) {
 			//  Don't go beyond buffer length
 			break;
 		}
-- 
2.43.0


From 5bc65997a73cb5c3b41d1c039dbbfcc7566b078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 23/79] fix: zpathnameSetPart wrote outside the buffer when it
 was full or the pathname had fewer than 6 parts

---
 heclib/heclib_c/src/Public/zpathnameSetPart.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index fc82afe..59980cd 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -59,7 +59,10 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 
 	//  Determine the position of the part and
 	//  the lengths of the old and new parts
-	zpathnamePartPositions(pathname, strlen(pathname), positions, 7);
+	if (zpathnamePartPositions(pathname, strlen(pathname), positions, 7) != 7) {
+		//  Not a pathname with 6 parts
+		return STATUS_NOT_OKAY;
+	}
 	end = positions[partPosition];
 	start = positions[partPosition-1];
 	oldLength = end - start -1;
@@ -95,7 +98,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		//  To do this, we must increment negatively.
 		diff = newLength - oldLength;
 		endPath = positions[6] + diff;
-		if (endPath > (int)sizeofPathname) {
+		if (endPath >= (int)sizeofPathname) {
 			//  We don't have enough room to expand the pathname!
 			return STATUS_NOT_OKAY;
 		}
-- 
2.43.0


From a7b8c8ec2e44a65a6756f3501eb98d08785333f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 24/79] fix: part positions of a text that is not a pathname
 are defined

---
 heclib/heclib_c/src/Public/zpathnamePartPositions.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zpathnamePartPositions.c b/heclib/heclib_c/src/Public/zpathnamePartPositions.c
index 665f33c..c9e0a0a 100644
--- a/heclib/heclib_c/src/Public/zpathnamePartPositions.c
+++ b/heclib/heclib_c/src/Public/zpathnamePartPositions.c
@@ -63,6 +63,11 @@ int zpathnamePartPositions (const char *pathname, size_t pathnameLen, int positi
 
 	number = zpathnamePartLengths(pathname, pathnameLen, &positions[1], size);
 	if (number < 1) {
+		//  No parts.  Define the positions, as callers may use them
+		positions[0] = 1;
+		for (i=1; i<=size && i<=6; i++) {
+			positions[i] = positions[i-1] + 1;
+		}
 		return number;
 	}
 
-- 
2.43.0


From 008ee127756f9dae9682b47b8c9304ebd40cdd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 25/79] fix: itoa_hec wrote past a full buffer and garbled
 negative numbers that cannot be negated

---
 heclib/heclib_c/src/Utilities/itoa.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/itoa.c b/heclib/heclib_c/src/Utilities/itoa.c
index b6808ec..f7e45ce 100644
--- a/heclib/heclib_c/src/Utilities/itoa.c
+++ b/heclib/heclib_c/src/Utilities/itoa.c
@@ -44,6 +44,7 @@ void itoa_hec(int num, char* str, int strLength, int base)
 #else
 	int i = 0;
 	int isNegative = 0;
+	unsigned int value = (unsigned int)num;
 
 	/* Handle 0 explicitely, otherwise empty string is printed for 0 */
 	if (num == 0)
@@ -57,20 +58,19 @@ void itoa_hec(int num, char* str, int strLength, int base)
 	if (num < 0 && base == 10)
 	{
 		isNegative = 1;
-		num = -num;
+		value = 0U - value;
 	}
 
 	// Process individual digits
-	while (num != 0)
+	while ((value != 0) && (i < strLength - 1))
 	{
-		int rem = num % base;
+		int rem = (int)(value % (unsigned int)base);
 		str[i++] = (rem > 9) ? (rem - 10) + 'a' : rem + '0';
-		num = num / base;
-		if (i >= strLength) break;
+		value = value / (unsigned int)base;
 	}
 
 	// If number is negative, append '-'
-	if (isNegative)
+	if (isNegative && (i < strLength - 1))
 		str[i++] = '-';
 
 	str[i] = '\0'; // Append string terminator
-- 
2.43.0


From 235e4f5410ae173449e9d3e56a6cebe6a2fda9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 26/79] fix: longWithCommas wrote past a full buffer and
 dropped digits in a small one

---
 heclib/heclib_c/src/Utilities/longWithCommas.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/longWithCommas.c b/heclib/heclib_c/src/Utilities/longWithCommas.c
index f21cf01..23bcfb1 100644
--- a/heclib/heclib_c/src/Utilities/longWithCommas.c
+++ b/heclib/heclib_c/src/Utilities/longWithCommas.c
@@ -29,6 +29,8 @@
 int longWithCommas(char *str, size_t strSize, long long number)
 {
 	char temp[30];
+	char digits[30];
+	unsigned long long value;
 	int i;
 	int count;
 	int ipos;
@@ -37,18 +39,19 @@ int longWithCommas(char *str, size_t strSize, long long number)
 
 	if (number < 0) {
 		boolNegative = 1;
-		number = -number;
+		value = 0ULL - (unsigned long long)number;
 	}
 	else {
 		boolNegative = 0;
+		value = (unsigned long long)number;
 	}
 
-	_snprintf_s(str, strSize, _TRUNCATE, "%lld", number);
-	len = strlen(str);
+	_snprintf_s(digits, sizeof(digits), _TRUNCATE, "%llu", value);
+	len = strlen(digits);
 	count = 0;
 	ipos = 0;
 	for (i=(int)(len-1); i>=0; i--) {
-		temp[count++] = str[i];
+		temp[count++] = digits[i];
 		if (count == strSize) return -1;
 		ipos++;
 		if ((ipos == 3) && (i != 0)) {
@@ -59,7 +62,10 @@ int longWithCommas(char *str, size_t strSize, long long number)
 	}
 
 	//  Now it has commas, but is inversed.  Right side it.
-	if (boolNegative) count++;
+	if (boolNegative) {
+		count++;
+		if (count == strSize) return -1;
+	}
 	ipos = 0;
 	for (i=(count-1); i>=0; i--) {
 		str[i] = temp[ipos++];
-- 
2.43.0


From b87e5595715025542159eb621c3be8ff05a4dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 27/79] fix: stringFortToC did not trim an all-blank string

---
 heclib/heclib_c/src/Utilities/stringFortToC.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/stringFortToC.c b/heclib/heclib_c/src/Utilities/stringFortToC.c
index fc69b72..8d39eeb 100644
--- a/heclib/heclib_c/src/Utilities/stringFortToC.c
+++ b/heclib/heclib_c/src/Utilities/stringFortToC.c
@@ -59,6 +59,10 @@ char *stringFortToC(const char *fortString, size_t fortStringLen)
 				break;
 			}
 		}
+		if (i < 0) {
+			//  All blank
+			len = 0;
+		}
 	}
 	len++;
 	copyTo = (char *)malloc((size_t)len);
-- 
2.43.0


From 7198b65da1f852a6dd7f18f5409f79e71decdd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 28/79] fix: stringCopy does not read past the number of
 characters to copy

---
 heclib/heclib_c/src/Utilities/stringCopy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/stringCopy.c b/heclib/heclib_c/src/Utilities/stringCopy.c
index a2f3549..60dfcf4 100644
--- a/heclib/heclib_c/src/Utilities/stringCopy.c
+++ b/heclib/heclib_c/src/Utilities/stringCopy.c
@@ -80,7 +80,7 @@ int stringCopy (char *destination, size_t sizeOfDestination, const char* source,
 		return strlen(destination);
 #endif
 	}
-	lenSource = (int)strlen(source);
+	lenSource = (size_t)strnlen_hec(source, (int)len);
 	if (lenSource < len) {
 		len = lenSource;
 	}
-- 
2.43.0


From 57d89d5e56073f6116b3d218c59f3c5b014e80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 29/79] fix: toFixedFields wrote one character past a full line

---
 heclib/heclib_c/src/Utilities/toFixedFields.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/toFixedFields.c b/heclib/heclib_c/src/Utilities/toFixedFields.c
index 9d1b2a5..94e552e 100644
--- a/heclib/heclib_c/src/Utilities/toFixedFields.c
+++ b/heclib/heclib_c/src/Utilities/toFixedFields.c
@@ -18,7 +18,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 	if(columnStart[0] > 0) {
 		for (i=0; i<columnStart[0]; i++) {
 			cstring[count++] = ' ';
-			if ((count-1) == (int)sizeofCstring) {
+			if (count == (int)sizeofCstring) {
 				cstring[count-1] = '\0';
 				return count;
 			}
@@ -30,7 +30,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 			diff = columnStart[j] - count;
 			for (i=0; i<diff; i++) {
 				cstring[count++] = ' ';
-				if ((count-1) == (int)sizeofCstring) {
+				if (count == (int)sizeofCstring) {
 					cstring[count-1] = '\0';
 					return count;
 				}
@@ -52,7 +52,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 			nblanks = diff - len;
 			for (i=0; i<nblanks; i++) {
 				cstring[count++] = ' ';
-				if ((count-1) == (int)sizeofCstring) {
+				if (count == (int)sizeofCstring) {
 					cstring[count-1] = '\0';
 					return count;
 				}
@@ -60,7 +60,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 		}
 		for (i=0; i<len; i++) {
 			cstring[count++] = cfield[i];
-			if ((count-1) == (int)sizeofCstring) {
+			if (count == (int)sizeofCstring) {
 				cstring[count-1] = '\0';
 				return count;
 			}
-- 
2.43.0


From 98842edc77aad3cb5abbad39275a420cbb4cde67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 30/79] fix: lengthening int elements in place no longer
 overwrites the element being copied

---
 heclib/heclib_c/src/Utilities/convertDataLength.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/convertDataLength.c b/heclib/heclib_c/src/Utilities/convertDataLength.c
index b0f3a35..62e0357 100644
--- a/heclib/heclib_c/src/Utilities/convertDataLength.c
+++ b/heclib/heclib_c/src/Utilities/convertDataLength.c
@@ -53,7 +53,7 @@ void convertDataLength(int *dataIn, int *dataOut, int dataInElementLength, int d
 		}
 	}
 	else {  //  dataOutElementLength > dataInElementLength
-		for (i=0; i<dataInElementLength; i++) {
+		for (i=dataInElementLength-1; i>=0; i--) {
 			dataOut[i] = dataIn[i];
 		}
 		//  Zero fill remaining length
-- 
2.43.0


From 458934b8e8a7fee815dfab473d0473806d52cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 31/79] fix: mallocAndCopy removes the trailing blanks after a
 single character

---
 heclib/heclib_c/src/Utilities/mallocAndCopy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/mallocAndCopy.c b/heclib/heclib_c/src/Utilities/mallocAndCopy.c
index 69768f9..137c2e9 100644
--- a/heclib/heclib_c/src/Utilities/mallocAndCopy.c
+++ b/heclib/heclib_c/src/Utilities/mallocAndCopy.c
@@ -54,12 +54,16 @@ char *mallocAndCopy(const char *copyFrom)
 	//  Remove trailing blanks
 	if (copyFrom[len-1] == ' ') {
 		len--;
-		for (i=len; i>0; i--) {
+		for (i=len; i>=0; i--) {
 			if (copyFrom[i] != ' ') {
 				len = i+1;
 				break;
 			}
 		}
+		if (i < 0) {
+			//  All blank
+			len = 0;
+		}
 	}
 	len++;
 	copyTo = (char *)malloc((size_t)len);
-- 
2.43.0


From 785c999aafa821aa32942a5b7d8af3bc95591a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 32/79] fix: reserve a new block of pathname bins before
 anything points to it

---
 heclib/heclib_c/src/Internal/zbinNew.c | 81 ++++++++++++--------------
 1 file changed, 38 insertions(+), 43 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinNew.c b/heclib/heclib_c/src/Internal/zbinNew.c
index 3851e8e..ed45d5c 100644
--- a/heclib/heclib_c/src/Internal/zbinNew.c
+++ b/heclib/heclib_c/src/Internal/zbinNew.c
@@ -67,72 +67,67 @@ int zbinNew(long long *ifltab)
 	// Record that we have created a new bin
 	fileHeader[zdssFileKeys.ktotalBins]++;
 
-	newBinAddress = 0;
 	isize = (int)fileHeader[zdssFileKeys.kbinSize];
-	//  Is there a pathname bin for this table hash?
-	//  (The table hash will have already been loaded by zcheck)
-	if (ifltab[zdssKeys.khashTableBinAdd] != 0) {
-		//  Yes, read it.
-		status = zget(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)pathnameBin, isize, 2);
+	//  Are there any more unused (empty) pathname bins in this block?
+	//  (A "block" will contain many (e.g., 32) pathname bins together)
+	if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
+		//  No more space in this block, create a new block at the end of the file
+		//  Compute space needed -
+		//  One extra word at the end of the bin block to point to the next block
+		blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
+		newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
+		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
+			zmessageDebug(ifltab, DSS_FUNCTION_zbinNew_ID, "Writing new block of pathname bins at end of file", "");
+		}
+		status = zput(ifltab, newBinAddress, (int *)&izero, -blockSize, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-		//  Are there any more unused (empty) pathname bins in this block?
-		//  (A "block" will contain many (e.g., 32) pathname bins together)
-		if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
-			//  No more space in this block, create a new block at the end of the file
-			//  Compute space needed -
-			//  One extra word at the end of the bin block to point to the next block
-			blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
-			newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
-			pathnameBin[isize-1] = newBinAddress;
-		}
-		else {
-			//  Yes, there is a unused bin in this block
-			pathnameBin[isize-1] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
+		//  Write the EOF flag
+		if (atEOF) {
+			status = zwriteEOF(ifltab);
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+			}
 		}
-		//  Save the address of this new bin in the current (full) bin (for this hash)
-		address = ifltab[zdssKeys.kbinAddCurrent] + isize - 1;
-		status = zput(ifltab, address, (int *)&pathnameBin[isize-1], 1, 2);
+		//  Save the new file size before anything points to the block, so that
+		//  its space is not given away should we be interrupted.
+		status = zpermWrite(ifltab);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-	}
-	//  No empty bins remain in this block; create new block at EOF
-	if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
-		//  Write a new pathname block at the end of the file
-		//  First, set the address of this in the last block
-		if (newBinAddress == 0) {
-			blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
-			newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
-		}
+		//  Set the address of this block in the last block
 		status = zput(ifltab, fileHeader[zdssFileKeys.kaddNextEmptyBin], (int *)&newBinAddress, 1, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-		//  Set location of current block at end of file
+		//  Use the first bin in this block
 		fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock] - 1;
-		ifltab[zdssKeys.kbinAddCurrent] = newBinAddress;
-		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-			zmessageDebug(ifltab, DSS_FUNCTION_zbinNew_ID, "Writing new block of pathname bins at end of file", "");
-		}
-		status = zput(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)&izero, -blockSize, 2);
+		fileHeader[zdssFileKeys.kaddNextEmptyBin] = newBinAddress + fileHeader[zdssFileKeys.kbinSize];
+		//  The block is in use from here on
+		status = zpermWrite(ifltab);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-		fileHeader[zdssFileKeys.kaddNextEmptyBin] = ifltab[zdssKeys.kbinAddCurrent] + fileHeader[zdssFileKeys.kbinSize];
-		//  Write the EOF flag
-		if (atEOF) {
-			status = zwriteEOF(ifltab);;
-		}
 	}
 	else {
 		//  There are still some empty bins in this block; use one
 		fileHeader[zdssFileKeys.kbinsRemainInBlock]--;
-		ifltab[zdssKeys.kbinAddCurrent] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
+		newBinAddress = fileHeader[zdssFileKeys.kaddNextEmptyBin];
 		//  When we've reached the end of the bin block, this will be used to point to next bin block
 		fileHeader[zdssFileKeys.kaddNextEmptyBin] += fileHeader[zdssFileKeys.kbinSize];
 	}
+	//  Is there a pathname bin for this table hash?
+	//  (The table hash will have already been loaded by zcheck)
+	if (ifltab[zdssKeys.khashTableBinAdd] != 0) {
+		//  Yes, save the address of this new bin in the current (full) bin (for this hash)
+		address = ifltab[zdssKeys.kbinAddCurrent] + isize - 1;
+		status = zput(ifltab, address, (int *)&newBinAddress, 1, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+		}
+	}
+	ifltab[zdssKeys.kbinAddCurrent] = newBinAddress;
 	//  Be sure the new bin is clear
 	for (i=0; i<(int)fileHeader[zdssFileKeys.kbinSize]; i++) {
 		pathnameBin[i] = 0;
-- 
2.43.0


From d2451a2c389bcc7d06719806154a8b7312f2646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 33/79] fix: report a failed pathname bin update instead of
 success

---
 heclib/heclib_c/src/Internal/zbinUpdate.c | 5 ++++-
 heclib/heclib_c/src/Public/zrename.c      | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index d3af688..b82f965 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -239,7 +239,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 							ifltab[zdssKeys.kbinAddCurrent], icount);
 						zmessageDebug(ifltab, DSS_FUNCTION_zbinUpdate_ID, "Bin full for address: ", messageString);
 					}
-					zbinNew(ifltab);
+					status = zbinNew(ifltab);
+					if (zisError(status)) {
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
+					}
 					fileHeader[zdssFileKeys.kbinsOverflow]++;
 					icount = 0;
 				}
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 3e70fe2..93d987c 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -71,7 +71,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	int wroteAtEOF;
 	int numberChars;
 	int pathnameSize;
-	int istat = 0;
 	int status;
 	int i;
 	int atEOF;
@@ -362,7 +361,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 
 	//  Update the pathname bin area
 	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &temp);
-	istat = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
+	status = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
+	if (zisError(status)) {
+		if (infoOld) free(infoOld);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
 
 	//  Now write the information area to disk
 	ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
-- 
2.43.0


From 5a296d5ea6b2d94c9e8a8ea3ce20c02e3548051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 34/79] fix: release the file table properly when a new file
 cannot be created

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 14 +++++------
 heclib/heclib_c/src/Internal/zpermCreate.c   | 25 --------------------
 2 files changed, 6 insertions(+), 33 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index ebc70fc..b0fe284 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -366,7 +366,9 @@
 		else {
 			//  Close the file
 			closeFile(ihandle);
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+			status = zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+			zmemoryFree(ifltab);
+			return status;
 		}
 	}
 
@@ -379,10 +381,10 @@
 		ifltab[zdssKeys.kmultiUserAccess] = EXCLUSIVE_ACCESS;
 		status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
 		if (zisError(status)) {
-			free((void*)ifltab[zdssKeys.kfileHeader]);
-			free((void*)ifltab[zdssKeys.kpathBin]);
 			closeFile(ihandle);
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+			status = zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+			zmemoryFree(ifltab);
+			return status;
 		}
 	}
 	else {
@@ -431,10 +433,6 @@
 
 	status = zcheckKeys(ifltab);
 	if (zisError(status)) {
-		free((void*)ifltab[zdssKeys.kfileHeader]);
-		free((void*)ifltab[zdssKeys.kpathBin]);
-		free((void*)ifltab[zdssKeys.kfilename]);
-		free((void*)ifltab[zdssKeys.kfullFilename]);
 		closeFile(ihandle);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
 	}
diff --git a/heclib/heclib_c/src/Internal/zpermCreate.c b/heclib/heclib_c/src/Internal/zpermCreate.c
index d09b1df..d87db12 100644
--- a/heclib/heclib_c/src/Internal/zpermCreate.c
+++ b/heclib/heclib_c/src/Internal/zpermCreate.c
@@ -111,15 +111,12 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Pathname Bin
 	status = zmemoryGet(ifltab, zdssKeys.kpathBin, (int)fileHeader[zdssFileKeys.kbinSize], "Pathname bin");
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Record header (info area)
 	status = zmemoryGet(ifltab, zdssKeys.kinfo, zdssVals.maxInfoSize, "Record header (info area)");
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -225,8 +222,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Write these initial values to the permanent area (file header)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -278,8 +273,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.klockWriteArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockWriteArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -287,8 +280,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.klockReadArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockReadArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -296,8 +287,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kpidArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.kpidArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -312,8 +301,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kaddHashTableStart] = zgetFileSpace(ifltab, size, 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.kaddHashTableStart], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -326,8 +313,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = fileHeader[zdssFileKeys.kreclaimTableAddress];
 	status = zput(ifltab, fileHeader[zdssFileKeys.kreclaimTableAddress], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 	fileHeader[zdssFileKeys.kreclaimTotal] = 0;
@@ -342,8 +327,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kaddNextEmptyBin] = fileHeader[zdssFileKeys.kaddFirstBin];
 	status = zput(ifltab, fileHeader[zdssFileKeys.kaddFirstBin], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 	fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock];
@@ -351,24 +334,18 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Write the EOF flag
 	status = zwriteEOF(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Write updated header to disk (includes hash table, path bin)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Force flush to disk
 	status = zflushToDisk(ifltab, 1);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -378,8 +355,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 
 	status = zcheckKeys(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
-- 
2.43.0


From 09fbf50b721a3b229d9adffeaea195f989c17bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:53 +0000
Subject: [PATCH 35/79] fix: refuse a file whose header size cannot be right

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 6 ++++++
 heclib/heclib_c/src/headers/zdssVals.h       | 1 +
 2 files changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index b0fe284..21ef018 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -280,6 +280,12 @@
 			}
 			//  Good to go.
 			//  Get the size of the permanent section
+			//  The size has to hold at least all of the header's items
+			if ((iarray[1] <= zdssFileKeys.kendFileHeader) || (iarray[1] > DSS_MAX_FILE_HEADER_SIZE)) {
+				closeFile(ihandle);
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER, 0,
+					iarray[1], zdssErrorSeverity.CORRUPT_FILE, fullDssFilename, "Invalid file header size");
+			}
 			ifltab[zdssKeys.kfiHeadSize] = iarray[1];
 		}
 	}
diff --git a/heclib/heclib_c/src/headers/zdssVals.h b/heclib/heclib_c/src/headers/zdssVals.h
index 189debf..dfd6cc8 100644
--- a/heclib/heclib_c/src/headers/zdssVals.h
+++ b/heclib/heclib_c/src/headers/zdssVals.h
@@ -39,6 +39,7 @@ extern struct hec_zdssVals zdssVals;
 #define DSS_NUMBER_LOCK_ATTEMPS		100
 
 #define DSS_MIN_FILE_HEADER_SIZE	100
+#define DSS_MAX_FILE_HEADER_SIZE	10000
 //  Keep track of how many other files are accessing this one
 #define DSS_LOCK_ARRAY_SIZE			25
 
-- 
2.43.0


From 68eae306f38eb5eb79713cfe25b08939577e8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 36/79] fix: hec_dss_tsGetSizes never returned for a record
 that is not a time series

---
 heclib/hecdss/hecdss.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ea4c44d..e77dbb1 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -263,8 +263,9 @@ HECDSS_API int hec_dss_tsGetSizes(dss_file* dss, const char* pathname,
     tss->endJulianDate = dateToJulian(endDate);
     tss->endTimeSeconds = timeStringToSeconds(endTime);
 
-    ztsProcessTimes(dss->ifltab, tss, 0);
-    int status = ztsGetSizes(dss->ifltab, tss, recordSize);
+    int status = ztsProcessTimes(dss->ifltab, tss, 0);
+    if (status >= 0)
+      status = ztsGetSizes(dss->ifltab, tss, recordSize);
     if (status == 0) {
       *numberValues = recordSize->logicalNumberValues;
       *qualityElementSize = recordSize->tsQualityElementSize;
-- 
2.43.0


From 8b15f0aafdefde2af09a69ff34fa1d6273c9bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 37/79] fix: do not save the process id in a file that is set
 to read only

---
 heclib/heclib_c/src/Internal/zpidWrite.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zpidWrite.c b/heclib/heclib_c/src/Internal/zpidWrite.c
index cbc76f7..2e98dba 100644
--- a/heclib/heclib_c/src/Internal/zpidWrite.c
+++ b/heclib/heclib_c/src/Internal/zpidWrite.c
@@ -42,6 +42,8 @@ void zpidWrite(long long *ifltab)
 
 
 	if (zgetVersion(ifltab) != 7) return;
+	//  Never write to a file that is read only
+	if (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE) return;
 
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 
@@ -130,6 +132,8 @@ void zpidUpdate(long long *ifltab)
 
 
 	if (zgetVersion(ifltab) != 7) return;
+	//  Never write to a file that is read only
+	if (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE) return;
 
 	if (ifltab[zdssKeys.kpidMyAddress] == 0) {
 		return;
-- 
2.43.0


From 9eca76b002788d9585514f56d53ef77658fb30a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 38/79] fix: do not write a stale file header after the lock
 was given up

When an operation gave up the lock without saving the header (a failed or
refused one), the header was still marked as to be written.  The next lock then
did not read it again, and its release wrote the stale copy over what other
processes had stored in the meantime.
---
 heclib/heclib_c/src/Internal/zlockActive.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index d183c3a..c728add 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -428,6 +428,9 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 							_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %d,  status: %d", handle, status);
 							zmessageDebug(ifltab, DSS_FUNCTION_zlocking_ID, "unlock primary lock;  Handle:", messageString);
 						}
+						//  From here on others may change the file header, so ours must be
+						//  read again before it is used (and never written as it is)
+						ifltab[zdssKeys.kwritingNow] = 0;
 						ifltab[zdssKeys.klocked] = 0;
 						ifltab[zdssKeys.klockCheckSet] = 0;
 						if (status != 0) {
-- 
2.43.0


From 601c2bb9759498808b4ddfe5944ebc970145f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 39/79] fix: zrename checks for the new pathname with the file
 locked

The check was made before waiting for the lock, so that a record another process
stored under the new pathname meanwhile ended up in the file twice.  Also give
up the lock when memory runs out.
---
 heclib/heclib_c/src/Public/zrename.c | 43 +++++++++++++++++-----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 93d987c..5aff2b5 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -191,14 +191,32 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 	}
 	
-	//  Be sure the new pathname does not already exist
-	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-	status = zcheckInternal(ifltab, newPath, 1);
-	if (zisError(status)) {
-		free(newPath);
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
-	}
-	if (status == STATUS_RECORD_FOUND) {
+	//  Be sure the new pathname does not already exist.  This has to be checked with the
+	//  file locked: while we wait for the lock, another process may store that pathname
+	//  (or remove the one to rename)
+	for (;;) {
+		//  Lock the file if we are in a multi-user access mode
+		//  And read the file header
+		status =  zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
+		if (zisError(status)) {
+			free(newPath);
+			return zerrorEncodeHigh(status, DSS_FUNCTION_zrename_ID);
+		}
+		ifltab[zdssKeys.kaddInfoLastPath] = 0;
+		status = zcheckInternal(ifltab, oldPathname, 1);
+		if (status == STATUS_RECORD_FOUND) {
+			ifltab[zdssKeys.kaddInfoLastPath] = 0;
+			status = zcheckInternal(ifltab, newPath, 1);
+		}
+		if (zisError(status)) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			free(newPath);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+		}
+		if (status != STATUS_RECORD_FOUND) {
+			break;
+		}
+		//  (Deleting releases the lock)
 		status = zdeleteInternal(ifltab, newPath, 0);
 		if (zisError(status)) {
 			free(newPath);
@@ -216,14 +234,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 	}
 
-	//  Lock the file if we are in a multi-user access mode
-	//  And read the file header
-	status =  zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
-	if (zisError(status)) {
-		free(newPath);
-		return zerrorEncodeHigh(status, DSS_FUNCTION_zrename_ID);
-	}
-
 	//  Compute the new info block size
 	numberInfoNew = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 
@@ -269,6 +279,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	infoAddress = ifltab[zdssKeys.kaddInfoLastPath];
 	infoOld = (long long*)calloc((size_t)numberInfoOld, LONG_SIZE);
 	if (!infoOld) {
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberInfoOld, 0,
-- 
2.43.0


From c4670909d17261b793374446e57fe7d72faed914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 40/79] fix: hec_dss text and array records are stored and
 returned in full

hec_dss_textStore made a copy of the text without its trailing blanks and
anything after the first non-ASCII character, and then stored length characters
of it, reading past its end.  hec_dss_textRetrieve did not terminate a text
that fits.  hec_dss_arrayRetrieve returned success without copying anything
into arrays of another length than the stored ones.
---
 heclib/hecdss/hecdss.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index e77dbb1..92aa175 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -915,14 +915,14 @@ HECDSS_API int hec_dss_arrayRetrieve(dss_file* dss, const char* pathname,
   int status = zarrayRetrieve(dss->ifltab, array);
 
   if (status == STATUS_OKAY) {
-    if (intValuesLength == array->numberIntArray) {
-      hec_dss_array_copy_int(intValues, intValuesLength, array->intArray, array->numberIntArray);
-    }
-    if (floatValuesLength == array->numberFloatArray) {
-      hec_dss_array_copy_float(floatValues, floatValuesLength, array->floatArray, array->numberFloatArray);
-    }
-    if (doubleValuesLength == array->numberDoubleArray) {
-      hec_dss_array_copy_double(doubleValues, doubleValuesLength, array->doubleArray, array->numberDoubleArray);
+    //  (A length of zero means that this array is not asked for)
+    hec_dss_array_copy_int(intValues, intValuesLength, array->intArray, array->numberIntArray);
+    hec_dss_array_copy_float(floatValues, floatValuesLength, array->floatArray, array->numberFloatArray);
+    hec_dss_array_copy_double(doubleValues, doubleValuesLength, array->doubleArray, array->numberDoubleArray);
+    if ((intValuesLength > 0 && intValuesLength < array->numberIntArray) ||
+        (floatValuesLength > 0 && floatValuesLength < array->numberFloatArray) ||
+        (doubleValuesLength > 0 && doubleValuesLength < array->numberDoubleArray)) {
+      status = HEC_DSS_BUFFER_TOO_SMALL;
     }
   }
 
@@ -934,8 +934,8 @@ HECDSS_API int hec_dss_textStore(dss_file* dss, const char* pathname, const char
 
   zStructText* txt = zstructTextNew(pathname);
 
-  txt->textString = mallocAndCopy(text);
-  txt->allocated[zSTRUCT_TX_textString] = 1;
+  //  All of the length characters given are stored, whatever they are
+  txt->textString = (char*)text;
   txt->numberTextChars = length;
 
   int status = ztextStore(dss->ifltab, txt);
@@ -953,7 +953,13 @@ HECDSS_API int hec_dss_textRetrieve(dss_file* dss, const char* pathname, char* b
     if (txt->numberTextChars > bufferLength) {
       status = HEC_DSS_BUFFER_TOO_SMALL;
     }
-    strncpy(buffer, txt->textString, MIN(bufferLength, txt->numberTextChars));
+    int numberToCopy = MIN(bufferLength, txt->numberTextChars);
+    if (numberToCopy > 0) {
+      memcpy(buffer, txt->textString, numberToCopy);
+    }
+    if (txt->numberTextChars < bufferLength) {
+      buffer[txt->numberTextChars] = '\0';
+    }
   }
 
   zstructFree(txt);
-- 
2.43.0


From 11ab80e7e18b082e54e2e6fa92b94c70e02545c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 41/79] fix: a refused write left a new write time and dates in
 the catalog

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 42 ++++++++++---------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 8f7cc07..7764ca4 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -146,6 +146,7 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	int newSize;
 	int longSize;
 	int temp;
+	int catSort;
 	int diff;
 	int type;
 	int version;
@@ -181,25 +182,6 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		numberLongsInInts(ztransfer->values3Number);
 	totalNumberInts *= 2;
 
-	//  Use the same last written (current time) for record and file header
-	icurrentTime = getCurrentTimeMillis();
-	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
-	ifltab[zdssKeys.kmyLastWriteTime] = fileHeader[zdssFileKeys.klastWriteTime];
-	//  Update pathname bin
-	ifltab[zdssKeys.kbinLastWrite] = icurrentTime;
-	//  Update the first and last julian in the pathname bin, if needed
-	//  These dates were put here by a time series write function
-	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
-	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
-	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
-	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
-
-	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
-	if (zisError(status)) {
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
-	}
-
-
 	info = (long long *)ifltab[zdssKeys.kinfo];
 	//  Check that we are writing the same data type.
 	//  You typically cannot overwrite a different data type - must first delete the record
@@ -229,6 +211,28 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		}
 	}
 
+	//  Use the same last written (current time) for record and file header
+	icurrentTime = getCurrentTimeMillis();
+	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
+	ifltab[zdssKeys.kmyLastWriteTime] = fileHeader[zdssFileKeys.klastWriteTime];
+	//  Update pathname bin
+	ifltab[zdssKeys.kbinLastWrite] = icurrentTime;
+	//  Update the first and last julian in the pathname bin, if needed
+	//  These dates were put here by a time series write function
+	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
+	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
+	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
+	//  The record may change between floats and doubles
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &temp, &catSort);
+	ifltab[zdssKeys.kbinTypeAndCatSort] = i4toi8(ztransfer->dataType, catSort);
+	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinTypeAndCatSort;
+
+	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinTypeAndCatSort], 3, 2);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+	}
+
+
 	//  Be sure we don't try to store negative lengths
 	if (ztransfer->internalHeaderNumber < 0) ztransfer->internalHeaderNumber = 0;
 	if (ztransfer->header2Number < 0) ztransfer->header2Number = 0;
-- 
2.43.0


From da84f657e794de4d3eddfadee4d6371a2ede7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 42/79] fix: storing paired data deleted a record of any other
 kind

---
 heclib/heclib_c/src/Public/zpdStore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 76f79be..aae1f5b 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -865,7 +865,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		if (boolStoreEntire)
 		{
 			int diskType = zdataType(ifltab,pds->pathname );
-			if (diskType > 0 && diskType != dataType) // exists and not the same dataType
+			if (((diskType == DATA_TYPE_PD) || (diskType == DATA_TYPE_PDD)) && (diskType != dataType)) // paired data of the other size
 			{
 				zdelete(ifltab, pds->pathname);
 			}
-- 
2.43.0


From 1fa0bc5d63d6801e6a64f1a46c01f858cb1bdb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 43/79] fix: storing irregular data over another kind of record
 reported success

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index a0f4577..280002d 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -294,6 +294,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 
 	int timeArrayUnits;
 
+	int typeRead;
+	int version;
 	long long *info;
 
 
@@ -369,6 +371,14 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 			ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
 			info = (long long *)ifltab[zdssKeys.kinfo];
 
+			//  Data can only be merged with irregular interval data
+			i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &typeRead, &version);
+			if ((typeRead < DATA_TYPE_ITS) || (typeRead >= DATA_TYPE_PD)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID, zdssErrorCodes.DIFFERENT_RECORD_TYPE,
+										dataType, (long long)typeRead,
+										zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
+
 			//  Now read internal header array
 			lengthInternalHeaderRead = (int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 			if (lengthInternalHeaderRead > sizeInternalHeaderRead) lengthInternalHeaderRead = sizeInternalHeaderRead;
-- 
2.43.0


From 846f290dd3f1a6b5a7d66a16fcb806053e066bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 44/79] fix: the sizes of a record that is not a time series
 were taken from unread memory

---
 heclib/heclib_c/src/Internal/ztsGetSizesInternal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
index d6436ea..9edc9c2 100644
--- a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
+++ b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
@@ -162,6 +162,13 @@ int ztsGetSizesInternal(long long *ifltab, ztsTimeWindow *timeWindow, zStructRec
 			}
 			if (status == STATUS_RECORD_FOUND) {
 				info = (long long *)ifltab[zdssKeys.kinfo];
+				//  The header of another kind of record has other contents
+				i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &version);
+				if ((dataType < DATA_TYPE_RTS) || (dataType >= DATA_TYPE_PD)) {
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieve_ID,
+											zdssErrorCodes.WRONG_RECORD_TYPE, DATA_TYPE_RTS,
+											(long long)dataType, zdssErrorSeverity.READ_ERROR, path, "");
+				}
 				number = (int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 				if (number > INT_HEAD_SIZE) number = INT_HEAD_SIZE;
 				status = zget(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], internalHeader, number, 1);
-- 
2.43.0


From 2a78a492f040d0db7af648a4a8c1fc88b9c8962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 45/79] fix: hec_dss_tsRetrieveInfo accepts only time series

---
 heclib/hecdss/hecdss.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 92aa175..7e763a8 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -288,6 +288,8 @@ HECDSS_API int hec_dss_tsRetrieveInfo(dss_file* pdss, const char* pathname,char*
     zStructTimeSeries* tss = zstructTsNew(pathname);
     transfer->internalHeaderMode = 1;
     int status = zread(pdss->ifltab, transfer);
+    if (status == 0 && (transfer->dataType < DATA_TYPE_RTS || transfer->dataType >= DATA_TYPE_PD))
+      status = STATUS_NOT_OKAY; // not a time series
     if (status == 0)
     {
       int intervalType = ztsProcessTimes(pdss->ifltab, tss, 0);
-- 
2.43.0


From 98615de9a6bf0ef46e89e0adc563ad0e56c319ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 46/79] fix: the time zone of a location was returned without a
 terminator

---
 heclib/heclib_c/src/Public/zlocationRetrieve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlocationRetrieve.c b/heclib/heclib_c/src/Public/zlocationRetrieve.c
index 4f95b51..bb3843c 100644
--- a/heclib/heclib_c/src/Public/zlocationRetrieve.c
+++ b/heclib/heclib_c/src/Public/zlocationRetrieve.c
@@ -201,7 +201,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 		nwords = ztransfer->values1Number - count;
 		len = nwords * 4;
 		if (len > 0) {
-			locationStruct->timeZoneName = (char *)malloc(len + 8);
+			locationStruct->timeZoneName = (char *)calloc((size_t)len + 8, 1);
 			locationStruct->allocated[zSTRUCT_timeZoneName] = 1;
 			charInt ((void *)&ztransfer->values1[count], locationStruct->timeZoneName, len, len, 0, 1, 0);
 		}
@@ -210,7 +210,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 	//  Supplemental information
 	if (ztransfer->values2Number > 0) {
 		len = ztransfer->values2Number * 4;
-		locationStruct->supplemental = (char *)malloc(len + 8);
+		locationStruct->supplemental = (char *)calloc((size_t)len + 8, 1);
 		locationStruct->allocated[zSTRUCT_otherInformation] = 1;
 		charInt ((void *)ztransfer->values2, locationStruct->supplemental, len, len, 0, 1, 0);
 	}
-- 
2.43.0


From a1dfc55abc9cbd4669cd8487bf8a790afd56af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 47/79] fix: a time zone name of more than 72 characters was
 not stored with a location

---
 heclib/heclib_c/src/Public/zlocationStore.c | 34 +++++++++++++--------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlocationStore.c b/heclib/heclib_c/src/Public/zlocationStore.c
index 29cb88a..65be8c4 100644
--- a/heclib/heclib_c/src/Public/zlocationStore.c
+++ b/heclib/heclib_c/src/Public/zlocationStore.c
@@ -117,8 +117,8 @@ int zlocationStore(long long *ifltab, zStructLocation *locationStruct, int stora
 	int status;
 	int nwords;
 	double coordinates[3];
-	int values1[30];
-	int values1Size = 30;
+	int *values1;
+	int values1Size;
 	int values1Number;
 	char *locationPathname;
 	char *path;
@@ -196,6 +196,19 @@ int zlocationStore(long long *ifltab, zStructLocation *locationStruct, int stora
 
 	values1Number = 0;
 
+	values1Size = 12;
+	if (locationStruct->timeZoneName) {
+		values1Size += numberIntsInBytes((int)strlen(locationStruct->timeZoneName));
+	}
+	values1 = (int *)calloc((size_t)values1Size + 2, 4);
+	if (!values1) {
+		zstructFree(ztransfer);
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zlocationStore_ID,
+								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+								zdssErrorSeverity.MEMORY_ERROR,
+								path, "Allocating location values");
+	}
+
 	//  X, Y, Z coordinates
 	coordinates[0] = locationStruct->xOrdinate;
 	coordinates[1] = locationStruct->yOrdinate;
@@ -212,16 +225,12 @@ int zlocationStore(long long *ifltab, zStructLocation *locationStruct, int stora
 
 
 	//  Time zone name
-	if (values1Size > 14) {
-		if (locationStruct->timeZoneName) {
-			len = (int)strlen(locationStruct->timeZoneName);
-			if (len > 0) {
-				nwords = numberIntsInBytes(len);
-				if ((nwords + values1Number) <= values1Size) {
-					charInt(locationStruct->timeZoneName, (void *)&values1[values1Number], len, nwords*4, 1, 1, isOdd(values1Number));
-					values1Number += nwords;
-				}
-			}
+	if (locationStruct->timeZoneName) {
+		len = (int)strlen(locationStruct->timeZoneName);
+		if (len > 0) {
+			nwords = numberIntsInBytes(len);
+			charInt(locationStruct->timeZoneName, (void *)&values1[values1Number], len, nwords*4, 1, 1, isOdd(values1Number));
+			values1Number += nwords;
 		}
 	}
 
@@ -247,6 +256,7 @@ int zlocationStore(long long *ifltab, zStructLocation *locationStruct, int stora
 	status = zwrite(ifltab, ztransfer);
 
 	ztransfer->values1 = 0;
+	free(values1);
 	if (ztransfer->values2) {
 		free(ztransfer->values2);
 		ztransfer->values2 = 0;
-- 
2.43.0


From c4f14071af4f2bbfc18f4659741b79d42b323272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 48/79] fix: zlocationDelete cut off pathnames with long A and
 B parts

---
 heclib/heclib_c/src/Public/zlocationDelete.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlocationDelete.c b/heclib/heclib_c/src/Public/zlocationDelete.c
index 2106d06..24d9cdc 100644
--- a/heclib/heclib_c/src/Public/zlocationDelete.c
+++ b/heclib/heclib_c/src/Public/zlocationDelete.c
@@ -5,22 +5,20 @@
 #include "heclib.h"
 #include "hecdssInternal.h"
 
-#define LOCATION_PATH "Location Info////"
 
 
 
 int zlocationDelete(long long *ifltab, const char* pathname)
 {
 	int status;
-	int positions[7];
-	char locationPathname[200];
+	char *locationPathname;
 
-	zpathnamePartPositions (pathname, strlen(pathname), positions, 7);
-	stringCopy (locationPathname, sizeof(locationPathname), pathname, (size_t)positions[2]) ;
-	stringCat(locationPathname, sizeof(locationPathname), LOCATION_PATH, _TRUNCATE);
+	locationPathname = zlocationPath(pathname);
 
 	status = zdelete(ifltab, locationPathname);
 
+	free(locationPathname);
+
 	return status;
 }
 
-- 
2.43.0


From c4433f1107643d1049d0a9f540e4a84d30382644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 49/79] fix: zspatialGridRetrieve did not return the grid's
 version

---
 heclib/heclib_c/src/Public/zspatialGridRetrieve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
index 74f87e9..cc85607 100644
--- a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
@@ -244,6 +244,7 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 	// Can only handle version 1 records 
 	if (gridStruct->_structVersion == VERSION_100) {
 		gridStruct->_type = ztransfer->internalHeader[INT_HEAD_grid_type];
+		gridStruct->_version = ztransfer->internalHeader[INT_HEAD_grid_version];
 		gridStruct->_dataType = ztransfer->internalHeader[INT_HEAD_grid_dataType];
 		gridStruct->_lowerLeftCellX = ztransfer->internalHeader[INT_HEAD_grid_lowerLeftCellX];
 		gridStruct->_lowerLeftCellY = ztransfer->internalHeader[INT_HEAD_grid_lowerLeftCellY];
-- 
2.43.0


From c332150b74e047ff91e9c5e12cb067dbdf0c0a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:23 +0000
Subject: [PATCH 50/79] fix: a location or a grid version was read from a
 record of another kind

---
 heclib/heclib_c/src/Public/zlocationRetrieve.c    | 9 +++++++++
 heclib/heclib_c/src/Public/zspatialGridRetrieve.c | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zlocationRetrieve.c b/heclib/heclib_c/src/Public/zlocationRetrieve.c
index bb3843c..a68deda 100644
--- a/heclib/heclib_c/src/Public/zlocationRetrieve.c
+++ b/heclib/heclib_c/src/Public/zlocationRetrieve.c
@@ -168,6 +168,15 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 		return status;
 	}
 
+	if (ztransfer->dataType != DATA_TYPE_LOCATION) {
+		status = zerrorProcessing(ifltab, DSS_FUNCTION_zlocationRetrieve_ID,
+								zdssErrorCodes.WRONG_RECORD_TYPE, ztransfer->dataType,
+								(long long)ztransfer->dataType,
+								zdssErrorSeverity.WARNING, ztransfer->pathname, "");
+		zstructFree(ztransfer);
+		return status;
+	}
+
 	if (ztransfer->values1Number < 6) {
 		//  no data, error out.
 		zstructFree(ztransfer);
diff --git a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
index cc85607..9890c60 100644
--- a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
@@ -98,6 +98,15 @@ int zspatialGridRetrieveVersion(long long *ifltab, const char *cpath, int* gridS
 		return status;
 	}
 
+	if (ztransfer->dataType < DATA_TYPE_UGT || ztransfer->dataType > DATA_TYPE_SG) {
+		status = zerrorProcessing(ifltab, DSS_FUNCTION_zspatialGridRetrieve_ID,
+			zdssErrorCodes.WRONG_RECORD_TYPE, ztransfer->dataType,
+			(long long)ztransfer->dataType,
+			zdssErrorSeverity.WARNING, ztransfer->pathname, "");
+		zstructFree(ztransfer);
+		return status;
+	}
+
 	if (bigEndian()) {
 		zswitchInts(ztransfer->internalHeader, ztransfer->internalHeaderNumber);
 	}
-- 
2.43.0


From fa9bcbbc2fe21babbb425d3bc9ff6d63717a8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 51/79] fix: zpdStore lost the location given with paired data

---
 heclib/heclib_c/src/Public/zpdStore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index aae1f5b..701e856 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -1176,6 +1176,11 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 
 
 	if ((pds->locationStruct) && (status == STATUS_OKAY)) {
+		if (pds->locationStruct->pathnameInternal && pds->locationStruct->allocated[zSTRUCT_locationPathInternal]) {
+			free(pds->locationStruct->pathnameInternal);
+		}
+		pds->locationStruct->pathnameInternal = mallocAndCopy(pds->pathname);
+		pds->locationStruct->allocated[zSTRUCT_locationPathInternal] = 1;
 		zlocationStore(ifltab, pds->locationStruct, allowOverwriteLocationVerticalDatum);
 	}
 
-- 
2.43.0


From ffb30a0f903ca5e220f3cd17c068952b5e84f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 52/79] fix: squeezing a file cut off data holding the end of
 file value, and lost I/O errors of the final copy

---
 heclib/heclib_c/src/Internal/copyFile.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/copyFile.c b/heclib/heclib_c/src/Internal/copyFile.c
index 308d84d..4e50707 100644
--- a/heclib/heclib_c/src/Internal/copyFile.c
+++ b/heclib/heclib_c/src/Internal/copyFile.c
@@ -45,8 +45,8 @@ int copyFile(long long *ifltab, int handleTo)
 	int numberReads;
 	int numberInts;
 	int i;
-	int j;
 	long long iaddress;
+	long long totalWords;
 	static int isize = 32768;
 	long long space[32768];
 	long long *fileHeader;
@@ -54,32 +54,33 @@ int copyFile(long long *ifltab, int handleTo)
 
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	ihandle = (int)ifltab[zdssKeys.khandle];
-	numberReads = (int)(fileHeader[zdssFileKeys.kfileSize] / (long long) 32768) + 1;
+	//  The last word in the file is the end of file flag, which is at the file size.
+	//  (Don't search for it, as data can have the same value)
+	totalWords = fileHeader[zdssFileKeys.kfileSize] + 1;
+	numberReads = (int)((totalWords + isize - 1) / isize);
 	numberInts = isize * 2;
 	iaddress = 0;
 	zresetProgress(zhandle(ifltab), (long long)numberReads);
 
 	for (i=0; i<numberReads; i++) {
+		if ((i+1) == numberReads) {
+			numberInts = (int)(totalWords - iaddress) * 2;
+		}
 		istat = zreadDisk (ihandle, 0, iaddress, space, numberInts);
 		if (istat) {
+			return istat;
 		}
 		if (handleTo > 0) {
-			if ((i+1) == numberReads) {
-				for (j=0; j<isize; j++) {
-					if (space[j] == DSS_END_FILE_FLAG) {
-						numberInts = (j + 1) * 2;
-						break;
-					}
-				}
-			}
 			istat = zwriteDisk (handleTo, 0, iaddress, space, numberInts);
 			if (istat) {
+				return istat;
 			}
 		}
 		iaddress += isize;
 		zprogress.currentNumber = i;
 		zprogress.handle = zhandle(ifltab);
-		if (zprogress.interrupt) break;
+		//  Don't leave a file being copied to incomplete
+		if (zprogress.interrupt && (handleTo <= 0)) break;
 	}
 
 	return istat;
-- 
2.43.0


From 2c46033294466353d6127c6ce78ef7d924ccd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 53/79] fix: copying or squeezing a file failed, or made up
 records, when data looked like a record header

---
 heclib/heclib_c/src/Public/zcopyFile.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 79f5f9e..2939ab4 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -75,7 +75,9 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 	int numberInfo;
 	int readSize;
 	long long fileBuff[FILE_BUFF_SIZE];
-	long long recHeader[3];
+	long long recHeader[4];
+	long long pathnameHash;
+	int tableHash;
 	char pathname[MAX_PATHNAME_LENGTH];
 	int pathLength;
 	char fullFilename[256];
@@ -151,14 +153,18 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 			if (fileBuff[i] == DSS_INFO_FLAG) {
 				//  Found a flag - check to be sure this is the flag and not a fluke
 				//  Make sure the next word contains the status and the following the path length
-				if ((i+2) < readSize) {
+				infoAddress = address + (long long)i;
+				if ((infoAddress + (long long)zdssVals.infoSize) > fileSize) {
+					break;
+				}
+				if ((i+3) < readSize) {
 					recHeader[0] = fileBuff[i];
 					recHeader[1] = fileBuff[i+1];
 					recHeader[2] = fileBuff[i+2];
+					recHeader[3] = fileBuff[i+3];
 				}
 				else {
-					infoAddress = address + (long long)i;
-					status = zget(ifltabFrom, infoAddress, (void *)recHeader, 3, 2);
+					status = zget(ifltabFrom, infoAddress, (void *)recHeader, 4, 2);
 					if (zisError(status)) {
 						return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
 					}
@@ -170,11 +176,13 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 					//  Be sure this was not deleted or renamed....
 					if (zcompareRecordStatus((int)recHeader[zdssInfoKeys.kinfoStatus], statusWanted)) {
 						//  Good - copy the record
-						infoAddress = address + (long long)i;
 						numberInfo = zdssVals.infoSize + numberLongsInBytes(pathLength);
 						if (numberInfo > zdssVals.maxInfoSize) {
 							numberInfo = zdssVals.maxInfoSize;
 						}
+						if ((infoAddress + (long long)numberInfo) > fileSize) {
+							continue;
+						}
 						status = zget(ifltabFrom, infoAddress, (int *)ifltabFrom[zdssKeys.kinfo], numberInfo, 2);
 						if (zisError(status)) {
 							return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
@@ -185,6 +193,12 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 						info = (long long *)ifltabFrom[zdssKeys.kinfo];
 						charInt((void *)&info[zdssInfoKeys.kinfoPathname], pathname, pathLength, sizeof(pathname), 0, 1, 0);
 						pathname[pathLength] = '\0';
+						//  Data can look like the beginning of an information block;
+						//  a real one has the hash of its pathname
+						zhash(ifltabFrom, pathname, pathLength, &tableHash, &pathnameHash);
+						if (recHeader[zdssInfoKeys.kinfoHash] != pathnameHash) {
+							continue;
+						}
 
 						if (zgetVersion(ifltabTo) == 7) {
 							status = zcopyRecordInternal(ifltabFrom, ifltabTo, pathname, 0);
-- 
2.43.0


From 5fe1c0d0d9373d1ad021d4fd2ce3d4781aa267fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 54/79] fix: zcopyRecord compared the wrong parts of the two
 pathnames

---
 heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
index c347f96..ba7b314 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
@@ -57,7 +57,7 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 	int lenPartE;
 	int ipos;
 	int lenPartsFrom;
-	int startFrom;
+	int startTo;
 	int lenPartsTo;
 	int vdiOverwrite = 0;
 	int elevCopy = 0;
@@ -116,15 +116,15 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 			//  If not, just do the long way (read and write) instead of internal copy
 			//  Long way should take care of any issues
 			if (boolInternalCopy) {
-				lenPartsFrom = positions[5] - positions[3];
-				startFrom = positions[3];
-				zpathnamePartPositions(pathnameFrom, strlen(pathnameFrom), positions, 7);
 				lenPartsTo = positions[5] - positions[3];
+				startTo = positions[3];
+				zpathnamePartPositions(pathnameFrom, strlen(pathnameFrom), positions, 7);
+				lenPartsFrom = positions[5] - positions[3];
 				if (lenPartsFrom != lenPartsTo) {
 					boolInternalCopy = 0;
 				}
 				else {
-					if (strncmp(&pathnameFrom[startFrom], &pathnameTo[positions[3]], lenPartsFrom) != 0) {
+					if (strncmp(&pathnameFrom[positions[3]], &pathnameTo[startTo], lenPartsFrom) != 0) {
 						boolInternalCopy = 0;
 					}
 				}
-- 
2.43.0


From a53bcba2d19f67525943ee7e7f04ec78eb9cf559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:39 +0000
Subject: [PATCH 55/79] fix: copying a record to another place left its
 location at the old one

---
 heclib/heclib_c/src/Internal/zcopyRecordInternal.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index 4685e94..b56cc7f 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -306,7 +306,12 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 		if (locationStruct) {
 			status = zlocationRetrieve(ifltabFrom, locationStruct);
 			if (status == STATUS_RECORD_FOUND) {
-				zlocationStore(ifltabTo, locationStruct, 0);
+				//  The location belongs to the new pathname
+				free(locationStruct->pathname);
+				locationStruct->pathname = mallocAndCopyPath(pathnameTo);
+				if (locationStruct->pathname) {
+					zlocationStore(ifltabTo, locationStruct, 0);
+				}
 			}
 			zstructFree(locationStruct);
 		}
@@ -335,7 +340,12 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 		if (locationStruct) {
 			status = zlocationRetrieve(ifltabFrom, locationStruct);
 			if (status == STATUS_RECORD_FOUND) {
-				zlocationStore(ifltabFrom, locationStruct, 0);
+				//  The location belongs to the new pathname
+				free(locationStruct->pathname);
+				locationStruct->pathname = mallocAndCopyPath(pathnameTo);
+				if (locationStruct->pathname) {
+					zlocationStore(ifltabFrom, locationStruct, 0);
+				}
 			}
 			zstructFree(locationStruct);
 		}
-- 
2.43.0


From 25cf9bdc12951eb8c7ee67efd2f02c3e60d7075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:37 +0000
Subject: [PATCH 56/79] fix: a missing record was reported as an error after an
 alias had been looked up

zreadInfo looked at the status of the last pathname found, even when this one
was not found.
---
 heclib/heclib_c/src/Internal/zreadInfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInfo.c b/heclib/heclib_c/src/Internal/zreadInfo.c
index 8c7cfbd..a0ce8e7 100644
--- a/heclib/heclib_c/src/Internal/zreadInfo.c
+++ b/heclib/heclib_c/src/Internal/zreadInfo.c
@@ -134,7 +134,7 @@ int zreadInfo(long long *ifltab, const char *pathname, int statusWanted)
 	}
 
 	//  Is this an alias?
-	if (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS) {
+	if ((status == STATUS_RECORD_FOUND) && (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS)) {
 		if (zmessageLevel(ifltab, MESS_METHOD_READ_ID, MESS_LEVEL_USER_DIAG)) {
 			zmessageDebug(ifltab, DSS_FUNCTION_zreadInfo_ID, "Pathname found is an alias; pathname: ", pathname);
 		}
-- 
2.43.0


From 9f92fa12eb428d064df513fe72c4d2723e5a1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:17 +0000
Subject: [PATCH 57/79] fix: aliases were left pointing to the old place of a
 record that moved

When a record is moved by a larger write or a rename, its oldest alias kept the
address of the old information block, which may be overwritten at any time.
---
 heclib/heclib_c/src/Internal/zwriteExisting.c |  7 ++++++
 heclib/heclib_c/src/Public/zaliasAdd.c        | 22 +++++++++++++++++++
 heclib/heclib_c/src/Public/zrename.c          |  8 +++++++
 heclib/heclib_c/src/headers/hecdssInternal.h  |  1 +
 4 files changed, 38 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 7764ca4..9cfa71f 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -163,6 +163,7 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 
 	long long icurrentTime;
 	long long address;
+	long long oldInfoAddress;
 	long long *info;
 	long long *fileHeader;
 
@@ -375,6 +376,7 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			numberLongsInInts(ztransfer->userHeaderNumber) +
 			numberLongsInInts(ztransfer->totalAllocatedSize);
 		//  We can use reclaimed space - even if it includes this same record
+		oldInfoAddress = ifltab[zdssKeys.kaddInfoLastPath];
 		address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
 		ifltab[zdssKeys.kaddInfoLastPath] = address;
 		fileHeader[zdssFileKeys.knumberExpansions] += 1;
@@ -384,6 +386,11 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
 		}
+		//  The oldest alias points to the information area, too
+		status = zaliasMoveInfo(ifltab, info[zdssInfoKeys.kinfoAliasesBinAddress], oldInfoAddress, address);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+		}
 
 		info[zdssInfoKeys.kinfoFlag] = DSS_INFO_FLAG;
 		info[zdssInfoKeys.kinfoStatus] = REC_STATUS_PRIMARY;
diff --git a/heclib/heclib_c/src/Public/zaliasAdd.c b/heclib/heclib_c/src/Public/zaliasAdd.c
index 2fc540c..53fb788 100644
--- a/heclib/heclib_c/src/Public/zaliasAdd.c
+++ b/heclib/heclib_c/src/Public/zaliasAdd.c
@@ -224,3 +224,25 @@ int zaliasAdd(long long *ifltab, const char* primayPathname, const char* aliasPa
 	return status;
 }
 
+//  Called when the info block of a record has moved:  If that record has aliases, then
+//  the oldest alias (the end of the chain, which starts at aliasAddress) needs the new address
+int zaliasMoveInfo(long long *ifltab, long long aliasAddress, long long oldInfoAddress, long long newInfoAddress)
+{
+	int status;
+	long long binAlias[4];
+
+	while (aliasAddress != 0) {
+		status = zget(ifltab, aliasAddress, (int *)binAlias, 4, 2);
+		if (zisError(status)) {
+			return status;
+		}
+		if (binAlias[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS) {
+			break;
+		}
+		if (binAlias[zdssBinKeys.kbinInfoAdd] == oldInfoAddress) {
+			return zput(ifltab, aliasAddress + zdssBinKeys.kbinInfoAdd, (int *)&newInfoAddress, 1, 2);
+		}
+		aliasAddress = binAlias[zdssBinKeys.kbinInfoAdd];
+	}
+	return STATUS_OKAY;
+}
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 5aff2b5..c1f2dfe 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -349,6 +349,14 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		//  The info area for this record will be at EOF
 		//  Save the location of info in the pathname bin
 		ifltab[zdssKeys.kaddInfoLastPath] = zgetFileSpace(ifltab, numberInfoNew, 0, &atEOF);
+		//  The oldest alias points to the info area, too
+		status = zaliasMoveInfo(ifltab, infoOld[zdssInfoKeys.kinfoAliasesBinAddress], infoAddress, ifltab[zdssKeys.kaddInfoLastPath]);
+		if (zisError(status)) {
+			if (infoOld) free(infoOld);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			free(newPath);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+		}
 		//  Now copy the old info area over new
 		for (i=0; i<numberInfoOld; i++) {
 			info[i] = infoOld[i];
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index 06792d2..9c39679 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -162,6 +162,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 				   long long bufferControl[4], int *buffer, int boolUseBuffer);
 int zwriteNew(long long *ifltab, zStructTransfer* ztransfer,
 			  long long bufferControl[4], int *buffer, int bufferAction, int *wroteAtEOF);
+int zaliasMoveInfo(long long *ifltab, long long aliasAddress, long long oldInfoAddress, long long newInfoAddress);
 int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			  long long bufferControl[4], int *buffer, int bufferAction, int *wroteAtEOF);
 
-- 
2.43.0


From c0fb8753e71626870fc3526af608e705d13cdbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:32 +0000
Subject: [PATCH 58/79] fix: renaming an alias, or to an alias, damaged the
 record behind it

---
 heclib/heclib_c/src/Public/zrename.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index c1f2dfe..b252b80 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -123,7 +123,8 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
-	if (status != STATUS_RECORD_FOUND) {
+	//  (An alias is only another name of a record)
+	if ((status != STATUS_RECORD_FOUND) || (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS)) {
 		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
 			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
 		}
@@ -216,6 +217,14 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		if (status != STATUS_RECORD_FOUND) {
 			break;
 		}
+		//  Do not delete a record because one of its aliases has the new name
+		if (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			free(newPath);
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+									zdssErrorCodes.RECORD_ALREADY_EXISTS, 0,
+									0, zdssErrorSeverity.WARNING, newPathname, "");
+		}
 		//  (Deleting releases the lock)
 		status = zdeleteInternal(ifltab, newPath, 0);
 		if (zisError(status)) {
-- 
2.43.0


From d1ef85fb70bee7309e511006915a4366c59efc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:47 +0000
Subject: [PATCH 59/79] fix: checking a file that has aliases reported errors

Aliases were not part of the number of pathnames expected, and the information
block of an alias to an alias was taken from the other alias' pathname bin.
---
 heclib/heclib_c/src/Internal/zreadInfoBlock.c    | 15 +++++++++++++++
 heclib/heclib_c/src/SemiPublic/zcheckPathnames.c |  6 +++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInfoBlock.c b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
index 3c1e4f7..a8b939e 100644
--- a/heclib/heclib_c/src/Internal/zreadInfoBlock.c
+++ b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
@@ -112,6 +112,7 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 {
 	int status;
 	int istat;
+	char primaryPathname[MAX_PATHNAME_LENGTH];
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_USER_DIAG)) {
@@ -124,6 +125,20 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
 	}
 
+	//  An alias leads to another alias or to the primary; get the info block of the primary
+	if ((status == STATUS_RECORD_FOUND) && (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS)) {
+		status = zaliasGetPrimary(ifltab, pathname, primaryPathname, sizeof(primaryPathname));
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
+		}
+		if (status == STATUS_OKAY) {
+			status = zcheckInternal(ifltab, primaryPathname, statusWanted);
+		}
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
+		}
+	}
+
 	// existing record
 	if (status == STATUS_RECORD_FOUND) {
 		//  Read in the info block
diff --git a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
index 65218d2..5d2d859 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
@@ -189,14 +189,14 @@ int zcheckPathnames(long long *ifltab)
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zcheckPathnames_ID, "Number not found: ", numberErrors);
 	}
 	if (numberErrors == 0) {
-		if (fileHeader[zdssFileKeys.knumberRecords] != numberFound) {
+		if ((fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]) != numberFound) {
 			if (zmessageLevel(ifltab, MESS_METHOD_FILE_CHECK_ID, MESS_LEVEL_GENERAL)) {
 				zmessage(ifltab, "zcheckPathnames, More pathnames found in file than recorded in file header.");
 				_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %d, Number in file header: %d",
-					numberFound, (int)fileHeader[zdssFileKeys.knumberRecords]);
+					numberFound, (int)(fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]));
 				zmessage2(ifltab, "Number counted:", messageString);
 			}
-			numberErrors = (int)fileHeader[zdssFileKeys.knumberRecords] - numberFound;
+			numberErrors = (int)(fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]) - numberFound;
 			if (numberErrors < 0) numberErrors = -numberErrors;
 		}
 	}
-- 
2.43.0


From f6a7cdc6bf58d461e41e60236f63fe71aba65cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:24 +0000
Subject: [PATCH 60/79] fix: squeezing or copying a file lost the aliases of
 its records

---
 heclib/heclib_c/src/Public/zcopyFile.c | 37 +++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 2939ab4..88dac8b 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -1,5 +1,5 @@
 #include <stdio.h>
-#include <stdlib.h>
+#include <string.h>
 #include <stdlib.h>
 
 #include "zdssKeys.h"
@@ -60,6 +60,36 @@
 *
 **/
 
+//  Give the copy of a record the aliases of the original
+static int copyAliases(long long *ifltabFrom, long long *ifltabTo, const char *pathname)
+{
+	char *list = 0;
+	char *alias;
+	int length;
+	int number;
+	int status;
+	int i;
+	int j;
+
+	//  The list begins with the record's own pathname, then from the newest alias to the oldest
+	number = zaliasList(ifltabFrom, pathname, &list, &length);
+	status = STATUS_OKAY;
+	for (i=(number-1); i>0; i--) {
+		alias = list;
+		for (j=0; j<i; j++) {
+			alias += strlen(alias) + 1;
+		}
+		status = zaliasAdd(ifltabTo, pathname, alias);
+		if (zisError(status)) {
+			break;
+		}
+	}
+	if (number > 0) {
+		free(list);
+	}
+	return status;
+}
+
 int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 {
 #define FILE_BUFF_SIZE	4028
@@ -73,6 +103,7 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 	long long fileSize;
 	long long *fileHeader;
 	int numberInfo;
+	int hasAliases;
 	int readSize;
 	long long fileBuff[FILE_BUFF_SIZE];
 	long long recHeader[4];
@@ -201,7 +232,11 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 						}
 
 						if (zgetVersion(ifltabTo) == 7) {
+							hasAliases = (info[zdssInfoKeys.kinfoAliasesBinAddress] != 0);
 							status = zcopyRecordInternal(ifltabFrom, ifltabTo, pathname, 0);
+							if (hasAliases && !zisError(status)) {
+								status = copyAliases(ifltabFrom, ifltabTo, pathname);
+							}
 						}
 						else {
 							status = zcopyRecord(ifltabFrom, ifltabTo, pathname, pathname);
-- 
2.43.0


From 1f8f0020730bec367fc4d48f6873f8c546d23fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:35 +0000
Subject: [PATCH 61/79] fix: deleting a record that is not there changed the
 file's last write time

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 0fd36df..a224670 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -270,8 +270,10 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	ifltab[zdssKeys.kpathnameHash] = 0;
 
-	icurrentTime = getCurrentTimeMillis();
-	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
+	if (status == STATUS_OKAY) {
+		icurrentTime = getCurrentTimeMillis();
+		fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
+	}
 	ifltab[zdssKeys.kwritingNow] = 1;
 
 	//  Unlock
-- 
2.43.0


From 0e4c3b399f8c6b50b72cc04213d83225240f3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:57 +0000
Subject: [PATCH 62/79] fix: a record's checksum used the wrong length for its
 third data array

---
 heclib/heclib_c/src/Public/zgetDataCRC.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zgetDataCRC.c b/heclib/heclib_c/src/Public/zgetDataCRC.c
index d07a804..cf6b3a5 100644
--- a/heclib/heclib_c/src/Public/zgetDataCRC.c
+++ b/heclib/heclib_c/src/Public/zgetDataCRC.c
@@ -103,7 +103,7 @@ unsigned int zgetDataCRC(long long *ifltab, const char *pathname, unsigned int c
 		}
 	}
 	if (ztransfer->values3) {
-		len = ztransfer->values1Number * 4;
+		len = ztransfer->values3Number * 4;
 		if (endian) {
 			crcValue = crc32_block_endian1(crcValue, ztransfer->values3, len, crc_table);
 		}
-- 
2.43.0


From 941b0ce5ae473ae7eed0d18b723ea966012b5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 63/79] fix: a sorted catalog ignored the write time asked for
 and left out types, hashes and write times

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index cca245a..28c7ee5 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -18,6 +18,29 @@
 
 
 
+//  Carry what the unsorted catalog says about a record over to its place in the sorted catalog
+static void copyRecordInfo(zStructCatalog *sortedStruct, int to, zStructCatalog *nonSortedStruct, int from)
+{
+	size_t number = (size_t)sortedStruct->listSize;
+
+	if (nonSortedStruct->recordType) {
+		if (!sortedStruct->recordType) sortedStruct->recordType = (int*)calloc(number, WORD_SIZE);
+		if (sortedStruct->recordType) sortedStruct->recordType[to] = nonSortedStruct->recordType[from];
+	}
+	if (nonSortedStruct->pathnameHash) {
+		if (!sortedStruct->pathnameHash) sortedStruct->pathnameHash = (long long*)calloc(number, LONG_SIZE);
+		if (sortedStruct->pathnameHash) sortedStruct->pathnameHash[to] = nonSortedStruct->pathnameHash[from];
+	}
+	if (nonSortedStruct->lastWriteTimeRecord) {
+		if (!sortedStruct->lastWriteTimeRecord) sortedStruct->lastWriteTimeRecord = (long long*)calloc(number, LONG_SIZE);
+		if (sortedStruct->lastWriteTimeRecord) sortedStruct->lastWriteTimeRecord[to] = nonSortedStruct->lastWriteTimeRecord[from];
+	}
+	if (nonSortedStruct->crcValues) {
+		if (!sortedStruct->crcValues) sortedStruct->crcValues = (unsigned int*)calloc(number, sizeof(unsigned int));
+		if (sortedStruct->crcValues) sortedStruct->crcValues[to] = nonSortedStruct->crcValues[from];
+	}
+}
+
 /**
 *  Function:	zcatInternalSort
 *
@@ -107,7 +130,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	}
 
 	//  The sort list covers the complete catalog only, not a selection by status or data type
-	boolSelection = sortedStruct && ((sortedStruct->statusWanted != 0) || (sortedStruct->typeWantedStart != 0));
+	boolSelection = sortedStruct && ((sortedStruct->statusWanted != 0) || (sortedStruct->typeWantedStart != 0) || (sortedStruct->lastWriteTimeSearch > 0));
 
 	//  Get current status of sort list stored in DSS file
 		//  0 = None (no sort list available)
@@ -135,6 +158,9 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		nonSortedStruct->statusWanted = sortedStruct->statusWanted;
 		nonSortedStruct->typeWantedStart = sortedStruct->typeWantedStart;
 		nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
+		nonSortedStruct->lastWriteTimeSearch = sortedStruct->lastWriteTimeSearch;
+		nonSortedStruct->lastWriteTimeSearchFlag = sortedStruct->lastWriteTimeSearchFlag;
+		nonSortedStruct->boolGetCRCvalues = sortedStruct->boolGetCRCvalues;
 	}
 	sortAddresses = 0;
 
@@ -217,11 +243,13 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 								sortedStruct->startDates[icount] = nonSortedStruct->startDates[j];
 								sortedStruct->endDates[icount]   = nonSortedStruct->endDates[j];
 							}
+							copyRecordInfo(sortedStruct, icount, nonSortedStruct, j);
 							icount++;
 							break;
 						}
 					}
 				}
+				sortedStruct->lastWriteTimeFile = nonSortedStruct->lastWriteTimeFile;
 			}
 			if (sortAddresses) {
 				free(sortAddresses);
@@ -342,6 +370,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 							zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct->pathnameList");
 		}
 		sortedStruct->allocated[zSTRUCT_pathname] = 1;
+		sortedStruct->lastWriteTimeFile = nonSortedStruct->lastWriteTimeFile;
 		if ((sortedStruct->boolIncludeDates) && (nonSortedStruct->startDates)) {
 			sortedStruct->startDates = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 			sortedStruct->endDates   = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
@@ -423,6 +452,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 					sortedStruct->endDates[i]   = nonSortedStruct->endDates[sequence];
 				}
 				if (sortedStruct->attributes) {}
+				copyRecordInfo(sortedStruct, i, nonSortedStruct, sequence);
 				if (sortedStruct->sortAddresses && nonSortedStruct->sortAddresses) {
 					sortedStruct->sortAddresses[i] = nonSortedStruct->sortAddresses[sequence];
 				}
-- 
2.43.0


From 3cd00a5ef192de3304442f190212aebeaa21ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:17 +0000
Subject: [PATCH 64/79] fix: storing part of a paired data record did not
 update its write time, program and version

---
 heclib/heclib_c/src/Public/zpdStore.c | 38 +++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 701e856..f56951b 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -9,6 +9,40 @@
 #include "zerrorCodes.h"
 #include "verticalDatum.h"
 
+//  Part of an existing record has been written in place: the record that is in memory
+//  now was last written by this program
+static int zpdUpdateWritten(long long *ifltab)
+{
+	long long *fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
+	long long *info = (long long *)ifltab[zdssKeys.kinfo];
+	long long currentTime = getCurrentTimeMillis();
+	long long address;
+	int dataType;
+	int version;
+	int numberInfo;
+	int status;
+
+	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &version);
+	version++;
+	info[zdssInfoKeys.kinfoTypeVersion] = i4toi8(dataType, version);
+	info[zdssInfoKeys.kinfoLastWriteTime] = currentTime;
+	charLong(zdssVals.cprogramName, &info[zdssInfoKeys.kinfoProgram], 0, zdssVals.numberProgram, 1, 1);
+	numberInfo = zdssVals.infoSize + numberLongsInBytes((int)info[zdssInfoKeys.kinfoPathnameLength]);
+	status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfo, 2);
+	if (zisError(status)) {
+		return status;
+	}
+	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd + zdssBinKeys.kbinLastWrite;
+	ifltab[zdssKeys.kbinLastWrite] = currentTime;
+	status = zput(ifltab, address, (int *)&currentTime, 1, 2);
+	if (zisError(status)) {
+		return status;
+	}
+	fileHeader[zdssFileKeys.klastWriteTime] = currentTime;
+	ifltab[zdssKeys.kmyLastWriteTime] = currentTime;
+	return STATUS_OKAY;
+}
+
 #define FREE_TEMPS_AND_RESTORE             \
 if (tmpFloatOrds) {                        \
 	pds->floatOrdinates = origFloatOrds;   \
@@ -1159,12 +1193,16 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				address = ztransfer->info[zdssInfoKeys.kinfoHeader2Address];
 				charInt(clabels, ztransfer->header2, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], (originalSize * 4), 1, 1, 0);
 				status = zputBuff(ifltab, address, ztransfer->header2, originalSize, 1, BUFF_WRITE, bufferControl, buffer);
+				if (status == STATUS_OKAY) status = zpdUpdateWritten(ifltab);
 			}
 			if (clabels) {
 				free(clabels);
 				clabels = 0;
 			}
 		}
+		else if (status == STATUS_OKAY) {
+			status = zpdUpdateWritten(ifltab);
+		}
 		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			if (zisError(status)) {
 			FREE_TEMPS_AND_RESTORE
-- 
2.43.0


From 8a2a820f01b8c97dbb14cb19ffce9fef35490691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:33 +0000
Subject: [PATCH 65/79] fix: what changed by checksum left out new records,
 confused records with the same name hash and gave no types

---
 .../heclib_c/src/Public/zwhatChangedCompare.c  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zwhatChangedCompare.c b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
index 10923b8..ef780db 100644
--- a/heclib/heclib_c/src/Public/zwhatChangedCompare.c
+++ b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "zdssKeys.h"
 #include "hecdss7.h"
@@ -58,6 +59,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	int i;
 	int j;
 	int *index;
+	int boolChanged;
 	zStructCatalog *catStruct;
 
 
@@ -120,15 +122,20 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 
 	count = 0;
 	for (i=0; i<catStruct->numberPathnames; i++) {
+		boolChanged = 1;
 		for (j=0; j<catStructBefore->numberPathnames; j++) {
-			if (catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) {
+			if ((catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) &&
+				(strcmp(catStruct->pathnameList[i], catStructBefore->pathnameList[j]) == 0)) {
 				//  We have an updated record.  Has the data changed?
-				if (catStruct->crcValues[i] != catStructBefore->crcValues[j]) {
-					//  Found One.  The CRC value has changed, so the data set has too.
-					index[count++] = i;
-				}
+				//  If the CRC value has changed, the data set has too.
+				boolChanged = (catStruct->crcValues[i] != catStructBefore->crcValues[j]);
+				break;
 			}
 		}
+		if (boolChanged) {
+			//  Found One.
+			index[count++] = i;
+		}
 	}
 
 	if (count == 0) {
@@ -193,6 +200,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	for (i=0; i<count; i++) {
 		j = index[i];
 		catStructChanged->pathnameList[i] = mallocAndCopy(catStruct->pathnameList[j]);
+		catStructChanged->recordType[i] = catStruct->recordType[j];
 		catStructChanged->pathnameHash[i] = catStruct->pathnameHash[j];
 		catStructChanged->lastWriteTimeRecord[i] = catStruct->lastWriteTimeRecord[j];
 		catStructChanged->crcValues[i] = catStruct->crcValues[j];
-- 
2.43.0


From 6fc122b1692c0ac7865b8dc2b8c933126c4ab45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:03 +0000
Subject: [PATCH 66/79] fix: hec_dss_tsRetrieve crashed when quality was asked
 for and none is stored

---
 heclib/hecdss/hecdss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 7e763a8..d6548a6 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -365,7 +365,7 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
             }
             valueArray[i] = tss->doubleValues[i];
             if (qualityWidth > 0) // TO DO.. quality can have multiple columns
-               quality[i] = tss->quality[i];
+               quality[i] = tss->quality ? tss->quality[i] : 0;
 
         }
     }
-- 
2.43.0


From c5fe68ba50c08f98ad77cd0d587ef57bb68d5b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:03 +0000
Subject: [PATCH 67/79] fix: hec_dss_pdRetrieveInfo left the labels length
 unset for a record without labels

---
 heclib/hecdss/hecdss.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index d6548a6..e429868 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -550,8 +550,7 @@ HECDSS_API int hec_dss_pdRetrieveInfo(dss_file* dss, const char* pathname,
   if (pds->typeDependent != NULL) {
     stringCopy(typeDependent, typeDependentLength, pds->typeDependent, strlen(pds->typeDependent));
   }
-  if (pds->labels)
-    *labelsLength = pds->labelsLength;
+  *labelsLength = pds->labels ? pds->labelsLength : 0;
 
   zstructFree(pds);
   return status;
-- 
2.43.0


From b32f82b7cbbc7e2d50228a1c017ba0712099296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:45 +0000
Subject: [PATCH 68/79] fix: quality given to hec_dss_tsStoreRegular or
 hec_dss_tsStoreIregular was not stored

---
 heclib/hecdss/hecdss.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index e429868..908280b 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -393,12 +393,15 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
     tss->allocated[zSTRUCT_TS_floatValues];// zstructFree will free float array
-    if (qualityArraySize > 0 && qualityArraySize == valueArraySize)
-      tss->quality = qualityArray;
   }
   else {
     tss = zstructTsNewRegDoubles(pathname, valueArray, valueArraySize, startDate, startTime, units, type);
   }
+  if (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
+    tss->quality = qualityArray;
+    tss->qualityElementSize = 1;
+    tss->qualityArraySize = qualityArraySize;
+  }
   tss->boolPattern = isTsPattern(pathname);
 
   tss->timeZoneName = mallocAndCopy(timeZoneName);
@@ -436,6 +439,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
   if  (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
     // TO DO.. quality can be multi-dimensional (Is that used?)
     tss->quality = qualityArray;
+    tss->qualityElementSize = 1;
     tss->qualityArraySize = qualityArraySize;
   }
     
-- 
2.43.0


From 329195e721a9faab7a8442d986c6eef880679d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:30 +0000
Subject: [PATCH 69/79] fix: base-64 decoding refuses invalid characters,
 decodes short texts and reports the decoded length

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 55 ++++++++++---------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index c65eae7..a502b63 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -428,44 +428,41 @@ int b64Encode(char** encoded, const char* toEncode, int toEncodeLen) {
 // See verticalDatum.h for documentation
 //
 int b64Decode(char** decoded, int* decodedLen, const char* toDecode) {
-    int len = b64DecodedLen(strlen(toDecode));
-    if (len < 4) {
-        len = -1;
+    const unsigned char* c = (const unsigned char*)toDecode;
+    int encodedLen = (int)strlen(toDecode);
+    int len = b64DecodedLen(encodedLen);
+    int padding = 0;
+    *decodedLen = 0;
+    if (len < 0) {
+        return len;
     }
-    else if (*(toDecode + len - 2) == '=') {
-        len -= 2;
+    if (len == 0) {
+        return -1;
     }
-    else if (*(toDecode + len - 1) == '=') {
-        --len;
-
+    if (c[encodedLen - 1] == '=') {
+        padding = c[encodedLen - 2] == '=' ? 2 : 1;
     }
-    if (len < 0) {
-        return len;
+    for (int pos = 0; pos < encodedLen - padding; ++pos) {
+        if (base64bytes[c[pos]] == 255) {
+            return -3;
+        }
     }
-    *decoded = (char*)mallocAndInit(strlen(toDecode));
-    const char* c = toDecode;
-    char i[4];
+    *decoded = (char*)mallocAndInit((size_t)len + 1);
+    unsigned char i[4];
     char* o = *decoded;
     while (*c) {
         i[0] = base64bytes[c[0]];
         i[1] = base64bytes[c[1]];
         i[2] = base64bytes[c[2]];
         i[3] = base64bytes[c[3]];
-        if (i[0] == 255 || i[1] == 255) {
-            free(*decoded);
-            *decodedLen = 0;
-            return -3;
-        }
         o[0] = i0_0 | i1_0;
         o[1] = i1_1;
         if (c[2] == '=') {
-            c += 2;
             break;
         }
         o[1] |= i2_1;
         o[2] = i2_2;
         if (c[3] == '=') {
-            c += 3;
             break;
         }
         o[2] |= i3_2;
@@ -473,7 +470,7 @@ int b64Decode(char** decoded, int* decodedLen, const char* toDecode) {
         c += 4;
         o += 3;
     }
-    *decodedLen = (c - toDecode);
+    *decodedLen = len - padding;
     return 0;
 }
 #undef i0_0
@@ -545,9 +542,9 @@ char* decodeAndGunzip(char** results, const char* inputBuf) {
     zstr.zalloc    = Z_NULL;
     zstr.zfree     = Z_NULL;
     zstr.opaque    = Z_NULL;
-    zstr.avail_in  = decodedLen + 1;
+    zstr.avail_in  = decodedLen;
     zstr.next_in   = decodedBuf;
-    zstr.avail_out = sizeof(textBuf);
+    zstr.avail_out = sizeof(textBuf) - 1;
     zstr.next_out  = textBuf;
     rc = inflateInit2(&zstr, 16+MAX_WBITS);
     if (rc != Z_OK) {
@@ -558,7 +555,8 @@ char* decodeAndGunzip(char** results, const char* inputBuf) {
     // now perform the gzip decompress //
     //---------------------------------//
     rc = inflate(&zstr, Z_FINISH);
-    if (rc != Z_OK && rc != Z_STREAM_END) {
+    if (rc != Z_STREAM_END) {
+        inflateEnd(&zstr);
         free(decodedBuf);
         return ERROR_ON_INFLATE;
     }
@@ -591,23 +589,26 @@ char* gzipAndEncode(char** results, const char* inputBuf) {
     //-----------------------------------//
     // setup structure for gzip compress //
     //-----------------------------------//
-    compressedBuf = (char*)mallocAndInit(inputLen);
+    outputLen = inputLen + (inputLen >> 12) + (inputLen >> 14) + 64; // incompressible text grows
+    compressedBuf = (char*)mallocAndInit(outputLen);
     zstr.zalloc    = Z_NULL;
     zstr.zfree     = Z_NULL;
     zstr.opaque    = Z_NULL;
     zstr.avail_in  = inputLen;
     zstr.next_in   = (char*)inputBuf;
-    zstr.avail_out = inputLen;
+    zstr.avail_out = outputLen;
     zstr.next_out  = compressedBuf;
     //-------------------------//
     // gzip compress the input //
     //-------------------------//
     rc = deflateInit2(&zstr, Z_DEFAULT_COMPRESSION, Z_DEFLATED, 16+MAX_WBITS, 8, Z_DEFAULT_STRATEGY);
     if (rc != Z_OK) {
+        free(compressedBuf);
         return ERROR_ON_DEFLATEINIT2;
     }
     rc = deflate(&zstr, Z_FINISH);
-    if (rc != Z_OK && rc != Z_STREAM_END) {
+    if (rc != Z_STREAM_END) {
+        deflateEnd(&zstr);
         free(compressedBuf);
         return ERROR_ON_DEFLATE;
     }
-- 
2.43.0


From 87cf094c62bbc228ad4b517be3a5e406d569d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:30 +0000
Subject: [PATCH 70/79] fix: a blank unit does not read before its text when a
 datum offset is converted

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index a502b63..8c9d5b9 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -144,13 +144,19 @@ double getOffset(double offset, const char* offsetUnit, const char* _dataUnit) {
     if (offset == UNDEFINED_VERTICAL_DATUM_VALUE) {
         return offset;
     }
+    if (_dataUnit == NULL) {
+        return UNDEFINED_VERTICAL_DATUM_VALUE;
+    }
     // blank trim the data unit (shouldn't have to do this)
     char* dataUnit = (char*)mallocAndInit(strlen(_dataUnit)+1);
     strcpy(dataUnit, _dataUnit);
-    for (int i = strlen(dataUnit)-1; dataUnit[i] == 32; --i) {
+    for (int i = (int)strlen(dataUnit)-1; i >= 0 && dataUnit[i] == 32; --i) {
         dataUnit[i] = '\0';
     }
-    if (offsetUnit == NULL || dataUnit == NULL) return UNDEFINED_VERTICAL_DATUM_VALUE;
+    if (offsetUnit == NULL) {
+        free(dataUnit);
+        return UNDEFINED_VERTICAL_DATUM_VALUE;
+    }
     if (!strcasecmp(offsetUnit, dataUnit)) {
         free(dataUnit);
         return offset;
-- 
2.43.0


From 9ba3582c21d0da1f10f68087885c8398573a17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:30 +0000
Subject: [PATCH 71/79] fix: parameters in delimited text are found by their
 whole name, may be empty, and never run past the buffer

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index 8c9d5b9..704b8f9 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -43,7 +43,7 @@ const int meterUnitAliasCount = sizeof(meterUnitAliases) / sizeof(meterUnitAlias
 const char* dss_strcasestr(const char* haystack, const char* needle) {
     int   haystackLen = strlen(haystack);
     int   needleLen = strlen(needle);
-    for (int haystackPos = 0; haystackPos < haystackLen - needleLen; ++haystackPos) {
+    for (int haystackPos = 0; haystackPos <= haystackLen - needleLen; ++haystackPos) {
         if (!strncasecmp(haystack + haystackPos, needle, needleLen)) {
             return haystack + haystackPos;
         }
@@ -205,11 +205,18 @@ char* extractFromDelimitedString(
         strcat(param, separator);
     }
     char* value = NULL;
-    char* paramStart = matchCase ? (char*)strstr(*delimitedString, param) : (char*)dss_strcasestr(*delimitedString, param);
+    char* paramStart = *delimitedString;
+    while (TRUE) {
+        paramStart = matchCase ? (char*)strstr(paramStart, param) : (char*)dss_strcasestr(paramStart, param);
+        if (!paramStart || paramStart == *delimitedString || paramStart[-1] == delimiter || isspace((unsigned char)paramStart[-1])) {
+            break;
+        }
+        ++paramStart; // only the end of another parameter's name or part of a value
+    }
     if (paramStart) {
         char* valueStart = paramStart + strlen(param);
         char* valueEnd;
-        for (valueEnd = valueStart + 1; *valueEnd && (*valueEnd != delimiter); ++valueEnd);
+        for (valueEnd = valueStart; *valueEnd && (*valueEnd != delimiter); ++valueEnd);
         len = valueEnd - valueStart;
         value = (char*)mallocAndInit(len + 1);
         memcpy(value, valueStart, len);
@@ -254,10 +261,20 @@ int insertIntoDelimitedString(
         free(existing);
         return 0;
     }
-    if (existing && overwriteExisting) {
-        free(extractFromDelimitedString(delimitedString, parameter, separator, TRUE, TRUE, delimiter));
+    char* remaining = strdup(*delimitedString);
+    if (existing) {
+        free(existing);
+        free(extractFromDelimitedString(&remaining, parameter, separator, TRUE, TRUE, delimiter));
+    }
+	int len = (int)strlen(remaining);
+    int neededSize = len + (len > 0 && remaining[len-1] != delimiter) + (int)strlen(parameter)
+        + (separator ? (int)strlen(separator) : 0) + (value ? (int)strlen(value) : 0) + 2;
+    if (neededSize > delimitedStringSize) {
+        free(remaining);
+        return -1;
     }
-	int len = strlen(*delimitedString);
+    strcpy(*delimitedString, remaining);
+    free(remaining);
     if (len > 0 && (*delimitedString)[len-1] != delimiter) {
 		(*delimitedString)[len++] = delimiter;
     }
@@ -274,17 +291,8 @@ int insertIntoDelimitedString(
 			(*delimitedString)[len++] = *cp;
 		}
     }
-	if (len > delimitedStringSize -2) {
-        if (existing) {
-            free(existing);
-        }
-        return -1;
-	}
     (*delimitedString)[len++] = delimiter;
     (*delimitedString)[len] = '\0';
-    if (existing) {
-        free(existing);
-    }
     return 0;
 }
 
-- 
2.43.0


From f4fdf74c1acf8a6a9f7f4794e77ef69f27a2503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:19 +0000
Subject: [PATCH 72/79] fix: datum XML whose tags do not match, are not closed
 or close nothing is refused without reading or writing outside its buffers

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 89 ++++++++++++++-----
 1 file changed, 66 insertions(+), 23 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index 704b8f9..9924602 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -649,11 +649,12 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
     const char* in;
     char* out;
     int   tagBufLen = 32;
-    char* tagBuf = (char*)mallocAndInit(tagBufLen);
-    int   xmlBufLen = strlen(inputBuf) * 3;
+    char* tagBuf = (char*)mallocAndInit(tagBufLen + 1);
+    int   xmlBufLen = strlen(inputBuf) * 3 + 1;
     char* xmlBuf = (char*)mallocAndInit(xmlBufLen);
-    int   inTag = FALSE;
-    int   tagPos;
+    int   inTag = FALSE;    // between < and > of a tag
+    int   inTagName = FALSE;
+    int   tagPos = 0;
     char* tagChar;
     in  = inputBuf;
     out = xmlBuf;
@@ -666,8 +667,9 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
                     return XML_IS_NOT_WELL_FORMED;
                 }
                 inTag = TRUE;
+                inTagName = TRUE;
                 tagPos = 0;
-                memset(tagBuf, 0, tagBufLen);
+                memset(tagBuf, 0, tagBufLen + 1);
                 *out++ = *in++;
                 break;
             case '/' :
@@ -677,6 +679,11 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
                         free(xmlBuf);
                         return XML_IS_NOT_WELL_FORMED;
                     case '>' :
+                        if (!inTag) {
+                            free(tagBuf);
+                            free(xmlBuf);
+                            return XML_IS_NOT_WELL_FORMED;
+                        }
                         *out++ = '>';
                         *out++ = '<';
                         *out++ = '/';
@@ -692,16 +699,17 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
                 break;
             case '>' :
                 inTag = FALSE;
+                inTagName = FALSE;
                 *out++ = *in++;
                 break;
             default :
-                if (isspace(*in)) {
-                    inTag = FALSE;
+                if (isspace((unsigned char)*in)) {
+                    inTagName = FALSE;
                 }
-                if (inTag) {
+                if (inTagName) {
                     if (tagPos >= tagBufLen) {
                         tagBufLen *= 2;
-                        char* cp = (char*)realloc(tagBuf, tagBufLen);
+                        char* cp = (char*)realloc(tagBuf, tagBufLen + 1);
                         if (cp == NULL) {
                             free(tagBuf);
                             free(xmlBuf);
@@ -710,6 +718,7 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
                         tagBuf = cp;
                     }
                     tagBuf[tagPos++] = *in;
+                    tagBuf[tagPos] = '\0';
                 }
                 *out++ = *in++;
         }
@@ -730,42 +739,52 @@ char* validateXmlStructure(const char* xml) {
     char*   cp2;
     size_t  len;
     int     first = TRUE;
+    int     valid = TRUE;
     char*   saveptr = NULL;
 
     strcpy(buf, xml);
+    char* start = buf;
+    while (isspace((unsigned char)*start)) {
+        ++start;
+    }
+    if (*start != '<') {
+        free(tagNames);
+        free(buf);
+        return INVALID_XML_STRUCTURE;
+    }
     while (TRUE) {
         if (first) {
-            cp1 = strtok_r(buf, "<", &saveptr);
+            cp1 = strtok_r(start, "<", &saveptr);
             first = FALSE;
         }
         else {
             cp1 = strtok_r(NULL, "<", &saveptr);
         }
         if (!cp1) {
+            valid = FALSE; // the root element is not closed
+            break;
+        }
+        if (!strchr(cp1, '>')) {
+            valid = FALSE;
             break;
         }
+        if (*cp1 == '?' || *cp1 == '!') {
+            continue; // XML declaration or comment
+        }
         for (cp2 = cp1; *cp2; ++cp2) {
-            if (isspace(*cp2) || *cp2 == '>') {
+            if (isspace((unsigned char)*cp2) || *cp2 == '>') {
                 break;
             }
         }
-        if (!*cp2) {
-            for (int i = 0; i < count; ++i) {
-                free(tagNames[i]);
-            }
-            free(tagNames);
-            free(buf);
-            return INVALID_XML_STRUCTURE;
-        }
         if (*cp1 == '/') {
             //-----------------//
             // closing bracket //
             //-----------------//
             ++cp1;
             len = cp2 - cp1;
-            if (strncmp(cp1, tagNames[count-1], len)) {
-                free(buf);
-                return INVALID_XML_STRUCTURE;
+            if (count == 0 || strlen(tagNames[count-1]) != len || strncmp(cp1, tagNames[count-1], len)) {
+                valid = FALSE;
+                break;
             }
             free(tagNames[--count]);
             if (count == 0) {
@@ -780,6 +799,9 @@ char* validateXmlStructure(const char* xml) {
                 size *= 2;
                 char** cpp = (char**)realloc(tagNames, size*  sizeof(char*));
                 if (cpp == NULL) {
+                    for (int i = 0; i < count - 1; ++i) {
+                        free(tagNames[i]);
+                    }
                     free(tagNames);
                     free(buf);
                     return MEMORY_ALLOCATION_ERROR;
@@ -797,7 +819,28 @@ char* validateXmlStructure(const char* xml) {
     }
     free(tagNames);
     free(buf);
-    return NULL;
+    return valid ? NULL : INVALID_XML_STRUCTURE;
+}
+/**
+ * Reads an offset value from located text
+ * @param tbi    The located text
+ * @param offset Receives the value
+ * @return       TRUE if all of the located text is one number, otherwise FALSE
+ */
+static int readOffsetValue(const textBoundaryInfo* tbi, double* offset) {
+    char*  end;
+    double value = strtod(tbi->firstNonBlank, &end);
+    if (end != tbi->lastNonBlank || !(value > -FLT_MAX && value < FLT_MAX)) {
+        return FALSE;
+    }
+    *offset = value;
+    return TRUE;
+}
+/**
+ * Tests whether located text (without leading and trailing blanks) equals specified text
+ */
+static int locatedTextEquals(const textBoundaryInfo* tbi, const char* text) {
+    return tbi->lenNonBlank == (int)strlen(text) && !strncmp(tbi->firstNonBlank, text, tbi->lenNonBlank);
 }
 //
 // See verticalDatum.h for documentation
-- 
2.43.0


From a987c5db75729e5728e541feccd8063e291d240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:19 +0000
Subject: [PATCH 73/79] fix: offsets, estimates and datum names in datum XML
 must be complete, and offset blocks may be of any length

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index 9924602..d397910 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -859,15 +859,13 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
     char* errmsg = NULL;
     char*  xml1;
     char*  xml;
-    char   offsetBuf[2][128];
+    char*  offsetBuf[2] = {NULL, NULL};
     int    freeXml1;
     double dtmp;
     textBoundaryInfo tbi;
 
     initializeVerticalDatumInfo(vdi);
 
-    memset(offsetBuf, 0, sizeof(offsetBuf)); // null terminators will exist after strncpy()
-
     int ngvd29OffsetProcessed = 0;
     int navd88OffsetProcessed = 0;
 
@@ -895,6 +893,7 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
     }
     errmsg = validateXmlStructure(xml);
     if (errmsg) {
+        free(xml);
         return errmsg;
     }
     errmsg = findTextBetween(&tbi, xml, "<vertical-datum-info", "</vertical-datum-info>");
@@ -958,17 +957,20 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
     //----------------------------------------//
     errmsg = findTextBetween(&tbi, xml, "<offset", "</offset>");
     if (errmsg == NULL && tbi.lenNonBlank != 0) {
-        strncpy(offsetBuf[0], tbi.firstWithBoundary, tbi.lenWithBoundaries);
+        char* endOfBlock = tbi.last;
+        offsetBuf[0] = tbi.firstWithBoundary;
         errmsg = findTextBetween(&tbi, tbi.lastWithBoundary, "<offset", "</offset>");
         if (errmsg == NULL && tbi.lenNonBlank != 0) {
-            strncpy(offsetBuf[1], tbi.firstWithBoundary, tbi.lenWithBoundaries);
+            offsetBuf[1] = tbi.firstWithBoundary;
+            *tbi.last = '\0';
         }
+        *endOfBlock = '\0';
     }
     //---------------------------//
     // process the offset blocks //
     //---------------------------//
     for (int i = 0; i < 2; ++i) {
-        if (offsetBuf[i][0] == '\0') {
+        if (offsetBuf[i] == NULL) {
             if (i == 0) {
                 free(xml);
                 return NULL; //MISSING_OFFSET_BLOCK_IN_XML;
@@ -980,7 +982,7 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
             free(xml);
             return INVALID_OFFSET_BLOCK_IN_XML;
         }
-        if (!strncmp(tbi.firstNonBlank, CVERTICAL_DATUM_NGVD29, 7)) {
+        if (locatedTextEquals(&tbi, CVERTICAL_DATUM_NGVD29)) {
             if (ngvd29OffsetProcessed) {
                 free(xml);
                 return MULTIPLE_NGVD_29_OFFSET_BLOCKS_IN_XML;
@@ -991,9 +993,7 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
             free(xml);
             return NO_NGVD_29_OFFSET_VALUE_IN_XML;
             }
-            errno = 0;
-            dtmp = strtod(tbi.firstNonBlank, &tbi.lastNonBlank);
-            if (dtmp != 0.f || errno == 0) {
+            if (readOffsetValue(&tbi, &dtmp)) {
                 vdi->offsetToNgvd29 = dtmp;
             }
             else {
@@ -1005,10 +1005,10 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
                 free(xml);
                 return INVALID_NGVD_29_OFFSET_BLOCK_IN_XML;
             }
-            if (!strncmp(tbi.firstNonBlank, "true", tbi.lenNonBlank)) {
+            if (locatedTextEquals(&tbi, "true")) {
                 vdi->offsetToNgvd29IsEstimate = TRUE;
             }
-            else if (!strncmp(tbi.firstNonBlank, "false", tbi.lenNonBlank)) {
+            else if (locatedTextEquals(&tbi, "false")) {
                 vdi->offsetToNgvd29IsEstimate = FALSE;
             }
             else {
@@ -1016,7 +1016,7 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
                 return INVALID_NGVD_29_OFFSET_BLOCK_IN_XML;
             }
         }
-        else if (!strncmp(tbi.firstNonBlank, CVERTICAL_DATUM_NAVD88, 7)) {
+        else if (locatedTextEquals(&tbi, CVERTICAL_DATUM_NAVD88)) {
             if (navd88OffsetProcessed) {
                 free(xml);
                 return MULTIPLE_NAVD_88_OFFSET_BLOCKS_IN_XML;
@@ -1027,9 +1027,7 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
                 free(xml);
                 return NO_NAVD_88_OFFSET_VALUE_IN_XML;
             }
-            errno = 0;
-            dtmp = strtod(tbi.firstNonBlank, &tbi.lastNonBlank);;
-            if (dtmp != 0.f || errno == 0) {
+            if (readOffsetValue(&tbi, &dtmp)) {
                 vdi->offsetToNavd88 = dtmp;
             }
             else {
@@ -1042,10 +1040,10 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
 				free(xml);
                 return INVALID_NAVD_88_OFFSET_BLOCK_IN_XML;
             }
-            if (!strncmp(tbi.firstNonBlank, "true", tbi.lenNonBlank)) {
+            if (locatedTextEquals(&tbi, "true")) {
                 vdi->offsetToNavd88IsEstimate = TRUE;
             }
-            else if (!strncmp(tbi.firstNonBlank, "false", tbi.lenNonBlank)) {
+            else if (locatedTextEquals(&tbi, "false")) {
                 vdi->offsetToNavd88IsEstimate = FALSE;
             }
             else {
-- 
2.43.0


From 05c43303648d9a069017bcbb59e646dfbbb83ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:52 +0000
Subject: [PATCH 74/79] fix: missing values of elevation series are not shifted
 between datums, unreadable datum information is not used, and a caller's
 location text is not reallocated

---
 heclib/heclib_c/src/Public/ztsRetrieve.c |  8 ++++----
 heclib/heclib_c/src/Public/ztsStore.c    | 24 ++++++++++++++----------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index ade0e6a..ec77930 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -415,7 +415,7 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 		//--------------------------------------------------//
 		// convert to requested vertical datum if necessary //
 		//--------------------------------------------------//
-		if (pathnameIsElevTs(tss->pathname)) {
+		if ((status == STATUS_OKAY) && pathnameIsElevTs(tss->pathname)) {
 			//------------------------//
 			// parameter is elevation //
 			//------------------------//
@@ -455,7 +455,7 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 						"Cannot convert from native vertical datum of '%s' to '%s'.\n"
 						"Record has no conversion information.\n"
 						"No values retrieved.",
-						tss->locationStruct->verticalDatum == 0 ? "UNSET"   :
+						!tss->locationStruct || tss->locationStruct->verticalDatum == 0 ? "UNSET"   :
 						tss->locationStruct->verticalDatum == 1 ? "NAVD-88" :
 						tss->locationStruct->verticalDatum == 2 ? "NGVD-29" : "OTHER",
 						cvertical_datum);
@@ -588,12 +588,12 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 							//------------------------------//
 							for (int i = 0; i < tss->numberValues; ++i) {
 								if (tss->floatValues) {
-									if (tss->floatValues[i] != UNDEFINED_FLOAT) {
+									if (!zisMissingFloat(tss->floatValues[i])) {
 										tss->floatValues[i] += (float)offset;
 									}
 								}
 								else {
-									if (tss->doubleValues[i] != UNDEFINED_DOUBLE) {
+									if (!zisMissingDouble(tss->doubleValues[i])) {
 										tss->doubleValues[i] += offset;
 									}
 								}
diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index 1caa321..6c52cb2 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -436,8 +436,9 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 					FALSE,
 					';');
 				if (vdiStr) {
-					stringToVerticalDatumInfo(&_vdiTs, vdiStr);
-					vdiTs = &_vdiTs;
+					if (stringToVerticalDatumInfo(&_vdiTs, vdiStr) == NULL) {
+						vdiTs = &_vdiTs;
+					}
 					free(vdiStr);
 				}
 			}
@@ -456,8 +457,9 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 						FALSE,
 						';');
 					if (vdiStr) {
-						stringToVerticalDatumInfo(&_vdiLoc, vdiStr);
-						vdiLoc = &_vdiLoc;
+						if (stringToVerticalDatumInfo(&_vdiLoc, vdiStr) == NULL) {
+							vdiLoc = &_vdiLoc;
+						}
 						free(vdiStr);
 					}
 				}
@@ -490,7 +492,7 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				if (tss->floatValues) {
 					tmpFloatVals = (float*)calloc(tss->numberValues, sizeof(float));
 					for (int i = 0; i < tss->numberValues; ++i) {
-						tmpFloatVals[i] = tss->floatValues[i] - (float)offset;
+						tmpFloatVals[i] = zisMissingFloat(tss->floatValues[i]) ? tss->floatValues[i] : tss->floatValues[i] - (float)offset;
 					}
 					origFloatVals = tss->floatValues;
 					tss->floatValues = tmpFloatVals;
@@ -498,7 +500,7 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				else if (tss->doubleValues) {
 					tmpDoubleVals = (double*)calloc(tss->numberValues, sizeof(double));
 					for (int i = 0; i < tss->numberValues; ++i) {
-						tmpDoubleVals[i] = tss->doubleValues[i] - offset;
+						tmpDoubleVals[i] = zisMissingDouble(tss->doubleValues[i]) ? tss->doubleValues[i] : tss->doubleValues[i] - offset;
 					}
 					origDoubleVals = tss->doubleValues;
 					tss->doubleValues = tmpDoubleVals;
@@ -562,7 +564,12 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								(int)strlen(tss->locationStruct->supplemental) +
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM_LEN +
 								(int)strlen(compressed) +
-								3;
+								4;
+							if (!tss->locationStruct->allocated[zSTRUCT_otherInformation]) {
+								// the text belongs to the caller
+								tss->locationStruct->supplemental = mallocAndCopy(tss->locationStruct->supplemental);
+								tss->locationStruct->allocated[zSTRUCT_otherInformation] = TRUE;
+							}
 							tss->locationStruct->supplemental = (char*)realloc(
 								tss->locationStruct->supplemental,
 								newLen);
@@ -575,9 +582,6 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								TRUE,
 								';');
 							if (status) { // unexpected error
-								if (vdiTs != &_vdiTs) {
-									free(vdiTs);
-								}
 								sprintf(
 									errmsg,
 									"\nVertical datum information could not be assigned to location record.\n"
-- 
2.43.0


From e35fa929e300a771d5dd973ffd97985b93a05cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:04 +0000
Subject: [PATCH 75/79] fix: paired data in a datum: partial stores and reads
 convert just their values, missing values are not shifted, a refused read
 does not free the user header twice

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 34 +++++++++---------
 heclib/heclib_c/src/Public/zpdStore.c    | 45 +++++++++++++++++-------
 2 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index a9022f3..0acc8b2 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -806,7 +806,6 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 								"%s:%s;", 
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM,
 								vdiStr);
-							free(pds->userHeader);
 						}
 					}
 					else {
@@ -890,13 +889,13 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 							// add the offset to the values //
 							//------------------------------//
 							if (pds->doubleOrdinates) {
-								for (int i = 0; i < pds->numberOrdinates; ++i) {
-									pds->doubleOrdinates[i] += ind_offset;
+								for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
+									if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] += ind_offset;
 								}
 							}
 							else if (pds->floatOrdinates) {
-								for (int i = 0; i < pds->numberOrdinates; ++i) {
-									pds->floatOrdinates[i] += ind_offset;
+								for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
+									if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] += ind_offset;
 								}
 							}
 						}
@@ -932,13 +931,13 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 									cvertical_datum);
 								if (ind_offset != UNDEFINED_VERTICAL_DATUM_VALUE && ind_offset != 0.) {
 									if (pds->doubleOrdinates) {
-										for (int i = 0; i < pds->numberOrdinates; ++i) {
-											pds->doubleOrdinates[i] -= ind_offset;
+										for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
+											if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] -= ind_offset;
 										}
 									}
 									else if (pds->floatOrdinates) {
-										for (int i = 0; i < pds->numberOrdinates; ++i) {
-											pds->floatOrdinates[i] -= ind_offset;
+										for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
+											if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] -= ind_offset;
 										}
 									}
 								}
@@ -966,13 +965,13 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 										cvertical_datum);
 									if (ind_offset != UNDEFINED_VERTICAL_DATUM_VALUE && ind_offset != 0.) {
 										if (pds->doubleOrdinates) {
-											for (int i = 0; i < pds->numberOrdinates; ++i) {
-												pds->doubleOrdinates[i] -= ind_offset;
+											for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
+												if (!zisMissingDouble(pds->doubleOrdinates[i])) pds->doubleOrdinates[i] -= ind_offset;
 											}
 										}
 										else if (pds->floatOrdinates) {
-											for (int i = 0; i < pds->numberOrdinates; ++i) {
-												pds->floatOrdinates[i] -= ind_offset;
+											for (int i = 0; i < pds->numberOrdinatesInStruct; ++i) {
+												if (!zisMissingFloat(pds->floatOrdinates[i])) pds->floatOrdinates[i] -= ind_offset;
 											}
 										}
 									}
@@ -992,13 +991,13 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 							// add the offset to the values //
 							//------------------------------//
 							if (pds->doubleValues) {
-								for (int i = 0; i < pds->numberOrdinates * pds->numberCurves; ++i) {
-									pds->doubleValues[i] += dep_offset;
+								for (int i = 0; i < pds->numberOrdinatesInStruct * pds->numberCurvesInStruct; ++i) {
+									if (!zisMissingDouble(pds->doubleValues[i])) pds->doubleValues[i] += dep_offset;
 								}
 							}
 							else if (pds->floatValues) {
-								for (int i = 0; i < pds->numberOrdinates * pds->numberCurves; ++i) {
-									pds->floatValues[i] += dep_offset;
+								for (int i = 0; i < pds->numberOrdinatesInStruct * pds->numberCurvesInStruct; ++i) {
+									if (!zisMissingFloat(pds->floatValues[i])) pds->floatValues[i] += dep_offset;
 								}
 							}
 						}
@@ -1017,6 +1016,7 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 						"%s:%s;", 
 						VERTICAL_DATUM_USER_HEADER_PARAM,
 						cvertical_datum);
+					if (pds->userHeader && pds->allocated[zSTRUCT_userHeader]) free(pds->userHeader);
 					pds->userHeader = stringToUserHeader(headerString, &pds->userHeaderNumber);
 					pds->allocated[zSTRUCT_userHeader] = TRUE;
 					free(headerString);
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index f56951b..4db9cfb 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -321,6 +321,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 	double *origDoubleOrds = NULL;
 	double *tmpDoubleVals = NULL;
 	double *origDoubleVals = NULL;
+	double offset_dep = 0.;
 	int indElev = FALSE;
 	int depElev = FALSE;
 	int elevParam = pathnameIsElevPd(pds->pathname); // returns 0, 1, 2, or 3
@@ -333,7 +334,6 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		double offset_ind = 0.;
 		char   cvertical_datum_ind[CVERTICAL_DATUM_SIZE];
 		int    ivertical_datum_ind = -1;
-		double offset_dep = 0.;
 		char   cvertical_datum_dep[CVERTICAL_DATUM_SIZE];
 		int    ivertical_datum_dep = -1;
 		int    userHeaderNumber = pds->userHeaderNumber;
@@ -388,8 +388,9 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				FALSE,
 				';');
 			if (vdiStr) {
-				stringToVerticalDatumInfo(&_vdiPd, vdiStr);
-				vdiPd = &_vdiPd;
+				if (stringToVerticalDatumInfo(&_vdiPd, vdiStr) == NULL) {
+					vdiPd = &_vdiPd;
+				}
 				free(vdiStr);
 			}
 		}
@@ -408,8 +409,9 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 					FALSE,
 					';');
 				if (vdiStr) {
-					stringToVerticalDatumInfo(&_vdiLoc, vdiStr);
-					vdiLoc = &_vdiLoc;
+					if (stringToVerticalDatumInfo(&_vdiLoc, vdiStr) == NULL) {
+						vdiLoc = &_vdiLoc;
+					}
 					free(vdiStr);
 				}
 			}
@@ -455,12 +457,13 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		// use temporary arrays so the values stored to disk are modified but the   //
 		// values in the zstructPd object aren't modified after the call            //
 		//--------------------------------------------------------------------------//
-		if (indElev) {
+		//  (a partial store has no ordinates, and its values are converted below)
+		if (indElev && boolStoreEntire) {
 			if (offset_ind != 0.) {
 				if (pds->floatOrdinates) {
 					tmpFloatOrds = (float*)calloc(pds->numberOrdinates, sizeof(float));
 					for (int i = 0; i < pds->numberOrdinates; ++i) {
-						tmpFloatOrds[i] = pds->floatOrdinates[i] - offset_ind;
+						tmpFloatOrds[i] = zisMissingFloat(pds->floatOrdinates[i]) ? pds->floatOrdinates[i] : pds->floatOrdinates[i] - offset_ind;
 					}
 					origFloatOrds = pds->floatOrdinates;
 					pds->floatOrdinates = tmpFloatOrds;
@@ -468,19 +471,19 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				else if (pds->doubleOrdinates) {
 					tmpDoubleOrds = (double*)calloc(pds->numberOrdinates, sizeof(double));
 					for (int i = 0; i < pds->numberOrdinates; ++i) {
-						tmpDoubleOrds[i] = pds->doubleOrdinates[i] - offset_ind;
+						tmpDoubleOrds[i] = zisMissingDouble(pds->doubleOrdinates[i]) ? pds->doubleOrdinates[i] : pds->doubleOrdinates[i] - offset_ind;
 					}
 					origDoubleOrds = pds->doubleOrdinates;
 					pds->doubleOrdinates = tmpDoubleOrds;
 				}
 			}
 		}
-		if (depElev) {
+		if (depElev && boolStoreEntire) {
 			if (offset_dep != 0.) {
 				if (pds->floatValues) {
 					tmpFloatVals = (float*)calloc(pds->numberCurves * pds->numberOrdinates, sizeof(float));
 					for (int i = 0; i < pds->numberCurves * pds->numberOrdinates; ++i) {
-						tmpFloatVals[i] = pds->floatValues[i] - offset_dep;
+						tmpFloatVals[i] = zisMissingFloat(pds->floatValues[i]) ? pds->floatValues[i] : pds->floatValues[i] - offset_dep;
 					}
 					origFloatVals = pds->floatValues;
 					pds->floatValues = tmpFloatVals;
@@ -488,7 +491,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				else if (pds->doubleValues) {
 					tmpDoubleVals = (double*)calloc(pds->numberCurves * pds->numberOrdinates, sizeof(double));
 					for (int i = 0; i < pds->numberCurves * pds->numberOrdinates; ++i) {
-						tmpDoubleVals[i] = pds->doubleValues[i] - offset_dep;
+						tmpDoubleVals[i] = zisMissingDouble(pds->doubleValues[i]) ? pds->doubleValues[i] : pds->doubleValues[i] - offset_dep;
 					}
 					origDoubleVals = pds->doubleValues;
 					pds->doubleValues = tmpDoubleVals;
@@ -546,7 +549,12 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 							strlen(pds->locationStruct->supplemental) +
 							VERTICAL_DATUM_INFO_USER_HEADER_PARAM_LEN +
 							strlen(compressed) +
-							3;
+							4;
+						if (!pds->locationStruct->allocated[zSTRUCT_otherInformation]) {
+							// the text belongs to the caller
+							pds->locationStruct->supplemental = mallocAndCopy(pds->locationStruct->supplemental);
+							pds->locationStruct->allocated[zSTRUCT_otherInformation] = TRUE;
+						}
 						pds->locationStruct->supplemental = (char*)realloc(
 							pds->locationStruct->supplemental,
 							newLen);
@@ -1085,6 +1093,19 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 									zdssErrorCodes.NO_DATA_GIVEN, 0, 0,
 									zdssErrorSeverity.WARNING, pds->pathname, "No values provided");
 			}
+			if (offset_dep != 0.) {
+				//  Put the values back to the native datum
+				for (j=0; j<numberRows; j++) {
+					if (boolStoreDoubles) {
+						double *dvalue = &((double *)ztransfer->values2)[j];
+						if (!zisMissingDouble(*dvalue)) *dvalue -= offset_dep;
+					}
+					else {
+						float *fvalue = (float *)&ztransfer->values2[offset + j];
+						if (!zisMissingFloat(*fvalue)) *fvalue -= offset_dep;
+					}
+				}
+			}
 			if (!boolStoreDoubles) {
 				if (bigEndian()) {
 					zswitchInts(ztransfer->values2, (numberRows + offset));
-- 
2.43.0


From 0dc1846bb6b6fd722bcaa20ea81f962b02ef6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:54 +0000
Subject: [PATCH 76/79] fix: storing regular values without quality or notes
 keeps those of the rest of the block

---
 .../heclib_c/src/Internal/ztsRegStoreBlock.c  | 49 +++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 3730e8f..e975733 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -409,6 +409,55 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			if (bigEndian()) {
 				zswitchInts(internalHeaderRead, INT_HEAD_cnotesLength + 1);
 			}
+			//  Are we storing part of a block that has quality or notes, without them?
+			//  If so, store blank ones, so that those of the other values in the block are kept
+			i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &recordType, &i);
+			if ((recordType >= DATA_TYPE_RTS) && (recordType < DATA_TYPE_ITS) && (lengthInternalHeaderRead > INT_HEAD_cnotesLength) &&
+				((numberToStore < numberInBlock) || (storageFlag == 1) || (storageFlag == 4))) {
+				lenQuality = (qualityElementSize == 0) ? internalHeaderRead[INT_HEAD_qualityElementSize] : 0;
+				lenNotes = (inoteElementSize == 0) ? internalHeaderRead[INT_HEAD_inotesElementSize] : 0;
+				len = ((cnotesSize == 0) && (internalHeaderRead[INT_HEAD_cnotesLength] > 0)) ? numberToStore : 0;
+				if ((lenQuality > 0) || (lenNotes > 0) || (len > 0)) {
+					if (lenQuality > 0) {
+						qualityElementSize = lenQuality;
+						qualityRead = (int *)calloc((size_t)numberToStore * (size_t)lenQuality, WORD_SIZE);
+						quality = qualityRead;
+					}
+					if (lenNotes > 0) {
+						inoteElementSize = lenNotes;
+						notesRead = (int *)calloc((size_t)numberToStore * (size_t)lenNotes, WORD_SIZE);
+						notes = notesRead;
+					}
+					if (len > 0) {
+						cnotesSize = len;
+						cnotesRead = (char *)calloc((size_t)len, CHAR_SIZE);
+						cnotes = cnotesRead;
+					}
+					if (((lenQuality > 0) && !qualityRead) || ((lenNotes > 0) && !notesRead) || ((len > 0) && !cnotesRead)) {
+						status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+										zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+										zdssErrorSeverity.MEMORY_ERROR, pathname, "quality and notes arrays");
+					}
+					else {
+						status = ztsRegStoreBlock(ifltab, tss, pathname, numberToStore,
+										values, valueSize, valueElementSize,
+										quality, qualityElementSize, notes, inoteElementSize,
+										cnotes, cnotesSize, lengthCNotes,
+										profileDepths, profileDepthsSize, profileDepthsNumber,
+										internalHeader, userHeader, userHeaderNumber,
+										positionInValues, numberInBlock,
+										startJulian, startSeconds, intervalSeconds,
+										julianBlockDate, blockStartPosition,
+										boolReadBlock, dataType, storageFlag);
+						//  The notes stored are not from the array of the caller
+						if (len > 0) *lengthCNotes = 0;
+					}
+					if (qualityRead) free(qualityRead);
+					if (notesRead) free(notesRead);
+					if (cnotesRead) free(cnotesRead);
+					return status;
+				}
+			}
 			if (info[zdssInfoKeys.kinfoLogicalNumber] < 1) {
 				//  Very rare (not storing data, but quality or notes)
 				boolReadBlock = 0;
-- 
2.43.0


From 7434a2986929e9723a4bbe23d383a7f061554304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:54 +0000
Subject: [PATCH 77/79] fix: storing irregular values without quality or notes
 keeps those of the rest of the block

---
 .../src/Internal/ztsIrregStoreBlock.c         | 49 +++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index 280002d..d210c2d 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -388,6 +388,55 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
 			}
 
+			//  Are we storing into a block that has quality or notes, without them?
+			//  If so, store blank ones, so that those of the other values in the block are kept
+			if (lengthInternalHeaderRead > INT_HEAD_cnotesLength) {
+				qualityReadLength = (qualityElementSize == 0) ? internalHeaderRead[INT_HEAD_qualityElementSize] : 0;
+				inotesReadLength = (inoteElementSize == 0) ? internalHeaderRead[INT_HEAD_inotesElementSize] : 0;
+				cnotesReadLen = ((lengthCNotes == 0) && (internalHeaderRead[INT_HEAD_cnotesLength] > 0)) ? numberToStore : 0;
+				if ((qualityReadLength > 0) || (inotesReadLength > 0) || (cnotesReadLen > 0)) {
+					//  (A block of a replacement might not have any values)
+					if (qualityReadLength > 0) {
+						qualityElementSize = qualityReadLength;
+						qualityRead = (int *)calloc((size_t)numberToStore * (size_t)qualityReadLength + 1, WORD_SIZE);
+						qualityToStore = qualityRead;
+					}
+					if (inotesReadLength > 0) {
+						inoteElementSize = inotesReadLength;
+						notesRead = (int *)calloc((size_t)numberToStore * (size_t)inotesReadLength + 1, WORD_SIZE);
+						notesToStore = notesRead;
+					}
+					if (cnotesReadLen > 0) {
+						lengthCNotes = cnotesReadLen;
+						cnotesToStoreNumber = cnotesReadLen;
+						lengthCNotesRemaining = &cnotesToStoreNumber;
+						cnotesRead = (char *)calloc((size_t)cnotesReadLen, CHAR_SIZE);
+						cnotes = cnotesRead;
+					}
+					if (((qualityReadLength > 0) && !qualityRead) || ((inotesReadLength > 0) && !notesRead) || ((cnotesReadLen > 0) && !cnotesRead)) {
+						status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+										zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+										zdssErrorSeverity.MEMORY_ERROR, pathname, "Allocating quality and notes arrays");
+					}
+					else {
+						status = ztsIrregStoreBlock(ifltab, tss, pathname, buffer, bufferControl,
+										numberToStore, timesToStore,
+										valuesToStore, valueSize, valueElementSize,
+										qualityToStore, qualityElementSize, notesToStore, inoteElementSize,
+										cnotes, lengthCNotes, lengthCNotesRemaining,
+										profileDepths, profileDepthsSize, profileDepthsNumber,
+										internalHeader, userHeader, userHeaderNumber,
+										julianStartBlockDate, julianEndBlockDate, blockSize,
+										boolFromStartOfBlock, boolToEndOfBlock,
+										storageFlag, boolReadBlock, dataType);
+					}
+					if (qualityRead) free(qualityRead);
+					if (notesRead) free(notesRead);
+					if (cnotesRead) free(cnotesRead);
+					return status;
+				}
+			}
+
 			logicalNumberValues = (int)info[zdssInfoKeys.kinfoLogicalNumber];
 			if (logicalNumberValues < 1) {
 				//  Very rare (not storing data, but quality or notes)
-- 
2.43.0


From 2d8bd1ab77acf4ab886548a1dbf5b28bbae402de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:54 +0000
Subject: [PATCH 78/79] fix: irregular blocks without text notes give blank
 notes, so that the others stay with their values

---
 heclib/heclib_c/src/Internal/ztsIrregReadBlock.c | 9 +++++++++
 heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 9c517ce..6048d8c 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -618,6 +618,15 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 				}
 				*totalNumberCnotesRead = endPos - iposNotes;
 			}
+			else if ((sizeCNotesRemaning > 0) && (internalHeader[INT_HEAD_cnotesLength] <= 0)) {
+				//  Notes asked for, but this block does not have any.  Blank note for each value
+				len = end - start + 1;
+				if (len > sizeCNotesRemaning) len = sizeCNotesRemaning;
+				for (i=0; i<len; i++) {
+					cnotes[i] = '\0';
+				}
+				*totalNumberCnotesRead = len;
+			}
 		}
 	}
 	else {
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
index 85f59f0..6e86e18 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
@@ -491,7 +491,8 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			tss->inoteElementSize = inoteElementSize;
 		}
 		else if (timeSeriesRecordSizes.tsCnotesLength) {
-			tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength;
+			//  Blocks without notes have a blank note for each value
+			tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength + maxValues;
 			tss->cnotes = (char *)calloc((size_t)tss->cnotesSize, CHAR_SIZE);
 			if (!tss->cnotes) {
 				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveIrreg_ID,
-- 
2.43.0


From 72f36cbd3c3b9a20af1a7c0b6f816b292b5ecebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:54 +0000
Subject: [PATCH 79/79] fix: missing regular blocks and blocks without text
 notes give blank notes within the space for them

---
 heclib/heclib_c/src/Internal/ztsDisaggregate.c | 4 ++--
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 4365777..07001e9 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -330,7 +330,7 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 		//  number = min(cnotesSize, numberToRead);
 		number = numberToRead;
 		if (cnotesSize < number) number = cnotesSize;
-		zeroFill(cnotes, numberToRead);
+		zeroFill(cnotes, number);
 		//  Set size requested to zero to bypass code below.
 		cnotesSize = 0;
 		*cnotesLength = number;
@@ -955,7 +955,7 @@ int ztsDisaggregateDep(long long *ifltab, int numberToRead, int numberStored,
 		//  number = min(cnotesSize, numberToRead);
 		number = numberToRead;
 		if (cnotesSize < number) number = cnotesSize;
-		zeroFill(cnotes, numberToRead);
+		zeroFill(cnotes, number);
 		//  Set size requested to zero to bypass code below.
 		cnotesSize = 0;
 		*cnotesLength = number;
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index affb916..fc18aaa 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -406,6 +406,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 					tss->inoteElementSize = inoteElementSize;
 				}
 				if (timeSeriesRecordSizes.tsCnotesLength) {
+					//  Blocks without notes have a blank note for each value
+					timeSeriesRecordSizes.tsCnotesLength += numberToRead;
 					tss->cnotes = (char *)calloc((size_t)timeSeriesRecordSizes.tsCnotesLength, CHAR_SIZE);
 					if (!tss->cnotes) {
 						if (buffer) free(buffer);
@@ -640,8 +642,9 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				charLong(&info[zdssInfoKeys.kinfoProgram], tss->programName, 0, zdssVals.numberProgram, 0, 1);
 				foundOne = 1;
 			} 
-			totalNumberCnotesRead += lengthCNotes;
 		}
+		//  (Missing blocks have a blank note for each value)
+		totalNumberCnotesRead += lengthCNotes;
 
 
 		//  Increment block start date
-- 
2.43.0


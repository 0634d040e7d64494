From bf1a0b99dbddc62b8d7edc858eb11da74220747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 01/67] fix: ExposureContrast video and log styles raise, extra
 channels come from the first pixel

---
 python/aces/clf/ExtensionExposureContrast.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 9f0f882..64996d6 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import math
+
 from ProcessNode import *
 
 #
@@ -148,7 +150,7 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot),1.0/1.83)), contrast)
+                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
@@ -156,14 +158,14 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    p = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
-                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - p)*contrast + p
+                    logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
+                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
             for i in range(min(3, stride),stride):
-                outValue[i] = values[i]
+                outValue[i] = value[i]
 
             # Copy to the output array
             outValues[p*stride:(p+1)*stride] = outValue
-- 
2.43.0


From 36adb1707a7a7e54cea72ec4cc71828b1e5302e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 02/67] fix: ExposureContrast.printInfo prints the exposure as
 the contrast

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 64996d6..da74aba 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -183,7 +183,7 @@ class ExposureContrast(ProcessNode):
         print( "\tPivot     : %s" % param[2] )
         '''
 
-        values = {"exposure":param[0], "contrast":param[0], "pivot":param[2]}
+        values = {"exposure":param[0], "contrast":param[1], "pivot":param[2]}
 
         for key, value in values.iteritems():
             print( "%20s : %15s : %15s" % ("Value", key, value) )
-- 
2.43.0


From 22290177d3cf88254102f3b3b470a84b964b58e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 03/67] fix: Log.process has no default stride, unlike every
 other node

---
 python/aces/clf/ExtensionLog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 6ae50b5..e7aeade 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -112,7 +112,7 @@ class Log(ProcessNode):
         return None
     # readChild
 
-    def process(self, values, stride, verbose=False):
+    def process(self, values, stride=0, verbose=False):
         # Base attributes
         inBitDepth = self._attributes['inBitDepth']
         outBitDepth = self._attributes['outBitDepth']
-- 
2.43.0


From 73a8e747b11e76dfa9bf36a5990172f97a80444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 04/67] fix: Gamma basicRev uses integer division for integer
 gammas

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 6fe9372..241c836 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -151,7 +151,7 @@ class Gamma(ProcessNode):
             elif style == 'basicRev':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-                    outValue[i] = pow(max(0.0, outValue[i]), 1/gamma[i])
+                    outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
-- 
2.43.0


From bc92b2a2ff6b052ebab94cc36a62b1e902cee109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 05/67] fix: Gamma moncurveRev switches segments at the pivot
 of the forward curve

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 241c836..9320f93 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -171,7 +171,7 @@ class Gamma(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= (offset[i]/(gamma[i]-1)) ):
+                    if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From 70f26464b3770849a51bca1aac320431af4e1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 06/67] fix: cubic interpolation of 1D LUTs raises NameError

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 14cbbf7..5b666f9 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -511,7 +511,7 @@ class Array:
         dimensions = self._dimensions
 
         if dimensions[0] < 4 or not useSciPy or not sciPyEnabled:
-            return lookup1DLinear(position, channel)
+            return self.lookup1DLinear(position, channel)
 
         index = position*(dimensions[0]-1)
 
-- 
2.43.0


From 4506049abf470aaaff59450be923605de6054e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 07/67] fix: 3D LUT lookup uses the wrong entry when the
 dimensions differ

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 5b666f9..a7f807c 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -538,7 +538,7 @@ class Array:
         # Corner cases
         index3 = map(lambda a, b: max(0, min(a, b-1)), index3, dimensions)
 
-        index1 = (index3[0]*dimensions[0]*dimensions[1] + index3[1]*dimensions[1] + index3[2])*3 
+        index1 = (index3[0]*dimensions[1]*dimensions[2] + index3[1]*dimensions[2] + index3[2])*3 
 
         #result = [values[index1], values[index1+1], values[index1+2]]
         result = values[index1:index1+3]
-- 
2.43.0


From 5ec09172db1abefbbead4a35b4b66238b519da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 08/67] fix: LUT3D.setArray appends the channel count to the
 caller's dimensions

---
 python/aces/clf/LUT3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index e164def..5f7e72b 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -87,7 +87,7 @@ class LUT3D(ProcessNode):
     # setIndexMaps
 
     def setArray(self, dimension, values, floatEncoding='string'):
-        dimensions = dimension
+        dimensions = list(dimension)
         dimensions.append(3)
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
-- 
2.43.0


From 6afce2f42e0580b3356eb341d8a598badddfcc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 09/67] fix: simple3DLUT stores samples out of order when the
 resolutions differ

---
 python/aces/clf/LUT3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 5f7e72b..fcbc78b 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -226,7 +226,7 @@ def simple3DLUT(id,
                 samplez = float(z)/(resolution[2]-1)
 
                 # Red changes fastest
-                lutValueIndex = (((x*resolution[0] +y)*resolution[1] + z))*channels
+                lutValueIndex = (((x*resolution[1] +y)*resolution[2] + z))*channels
 
                 fvalue = f(samplex, sampley, samplez)
                 lutValues[lutValueIndex:lutValueIndex+channels] = fvalue
-- 
2.43.0


From 26d7ce339adf04c406ce05a379259cf491053ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 10/67] fix: getIndexMapDimensions calls a method that IndexMap
 does not have

---
 python/aces/clf/LUT1D.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 938bf0e..3e12624 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -112,7 +112,7 @@ class LUT1D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index fcbc78b..bc50d3f 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -105,7 +105,7 @@ class LUT3D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
-- 
2.43.0


From 067b29befc05c1835f3e16ebf19fbf2f883e2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 11/67] fix: ColorCorrection.process raises KeyError for the
 attributes it does not have

---
 python/aces/clf/ASCCDL.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index dfeefe2..7213ab5 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -130,11 +130,12 @@ class ASCCDL(ProcessNode):
             return values
 
         # Base attributes
-        inBitDepth = self._attributes['inBitDepth']
-        outBitDepth = self._attributes['outBitDepth']
+        inBitDepth = self.getInBitDepth()
+        outBitDepth = self.getOutBitDepth()
 
         # Node attributes
-        style = ''
+        # Forward is the default, and the only style of a ColorCorrection, which has no style attribute
+        style = 'Fwd'
         if 'style' in self._attributes: style = self._attributes['style']
 
         if (not(getFeatureCompatibility() & featureSets["Autodesk"]) and
-- 
2.43.0


From 41ad532a6b9f2863d421013c9f201c1d4f224ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 12/67] fix: the unclamped reverse ASC CDL styles clamp

---
 python/aces/clf/ASCCDL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index 7213ab5..0006e57 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -219,9 +219,9 @@ class ASCCDL(ProcessNode):
                 for i in range(3):
                     outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                     if outSat < 0:
-                        outValue[i] = ( clamp(outSat) - offset[i] ) / slope[i]
+                        outValue[i] = ( outSat - offset[i] ) / slope[i]
                     else:
-                        outValue[i] = ( pow( clamp(outSat), 1.0/power[i] ) - offset[i] ) / slope[i]
+                        outValue[i] = ( pow( outSat, 1.0/power[i] ) - offset[i] ) / slope[i]
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
-- 
2.43.0


From d83f9b2ad870930a1084a9d1261a0131627d24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 13/67] fix: bypass="False" bypasses the node

---
 python/aces/clf/ExtensionGroup.py | 2 +-
 python/aces/clf/ProcessList.py    | 4 ++--
 python/aces/clf/ProcessNode.py    | 3 +++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 873413c..12ba9b8 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,7 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') == None:
+            if not processNode.getFlag('bypass'):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 485a487..d038ee0 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -354,7 +354,7 @@ class ProcessList:
             #print( "processing : %s" % result )
 
             # Process the current value using the ProcessNode
-            if (processNode.getAttribute('bypass') == None or
+            if (not processNode.getFlag('bypass') or
                 not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
@@ -363,7 +363,7 @@ class ProcessList:
                             " ".join(map(lambda x: "%3.6f" % x, result)),
                             type(result) ) )
 
-                    if (processNode.getAttribute('bypass') != None and
+                    if (processNode.getFlag('bypass') and
                         not(getFeatureCompatibility() & featureSets["Autodesk"])):
                         print( "%s (%s) - bypass ignored based on feature compatibility setting." % 
                             (processNode.getAttribute('name'), processNode.getNodeType()) )
diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index b0b1a28..b289d83 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -274,6 +274,9 @@ class ProcessNode():
         else:
             value = None
         return value
+    # A flag that is present can still be off. Files can spell that 'False' or 'false'
+    def getFlag(self, name):
+        return not (self.getAttribute(name) in [None, False, 'False', 'false', '0'])
 
     # Elements
     def addElement(self, element):
-- 
2.43.0


From ca6c27143eb5fcd48660aef0e165abd3aad22df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 14/67] fix: Group honours bypass without the Autodesk feature
 set, unlike ProcessList

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 12ba9b8..4da2cf2 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,8 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if not processNode.getFlag('bypass'):
+            if (not processNode.getFlag('bypass') or
+                not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
-- 
2.43.0


From fdc186a1022b87ff366562c3b6e58162b59d06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 15/67] fix: defaultRange="False" turns the default range on

---
 python/aces/clf/Range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Range.py b/python/aces/clf/Range.py
index 99e860a..38781b0 100644
--- a/python/aces/clf/Range.py
+++ b/python/aces/clf/Range.py
@@ -108,7 +108,7 @@ class Range(ProcessNode):
         defaultRange = False
         if 'style' in self._attributes: 
             clamp = (self._attributes['style'] == 'clamp')
-        if 'defaultRange' in self._attributes: 
+        if self.getFlag('defaultRange'):
             defaultRange = True
 
         # Node parameters
-- 
2.43.0


From 17e2b38abd4f83e839e1b4fab7f1016874cfd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 16/67] fix: rawHalfs="false" and halfDomain="false" turn the
 option on

---
 python/aces/clf/LUT1D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 3e12624..73fc949 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -96,7 +96,7 @@ class LUT1D(ProcessNode):
         dimensions = [len(values)/dimension, dimension]
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
-        rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
+        rawHalfs = self.getFlag('rawHalfs')
 
         self._array = Array(dimensions, 
             values, 
@@ -120,7 +120,7 @@ class LUT1D(ProcessNode):
         child = None
         elementType = self.getElementType(element.tag)
         if elementType == 'Array':
-            rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
+            rawHalfs = self.getFlag('rawHalfs')
 
             child = Array(rawHalfs=rawHalfs)
             child.read(element)
@@ -145,8 +145,8 @@ class LUT1D(ProcessNode):
         interpolation = ''
         if 'interpolation' in self._attributes: interpolation = self._attributes['interpolation']
 
-        rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
-        halfDomain = not (self.getAttribute('halfDomain') in [None, False])
+        rawHalfs = self.getFlag('rawHalfs')
+        halfDomain = self.getFlag('halfDomain')
         
         '''
         print( "interpolation  : %s" % interpolation )
-- 
2.43.0


From d72a4da7d455ec3e653baae5ff2c7baa54c3352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 17/67] fix: errors of strict mode are replaced by an XML
 syntax error for gzipped files

---
 python/aces/clf/ProcessList.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index d038ee0..d6dd428 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -240,15 +240,14 @@ class ProcessList:
             try:
                 f = gzip.open(clfPath, 'rb')
                 tree = etree.parse(f)
-                root = tree.getroot()
-                self.read(root, strict)
                 f.close()
 
             # Read as normal XML otherwise
             except:
                 tree = etree.parse(clfPath)
-                root = tree.getroot()
-                self.read(root, strict)
+
+            root = tree.getroot()
+            self.read(root, strict)
 
         # Read as XML otherwise
         else:
-- 
2.43.0


From a30c8423a2a70609563dbef2432b15127692f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 18/67] fix: writing text outside ASCII fails and leaves an
 empty file

---
 python/aces/clf/ProcessList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index d6dd428..9bc7290 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -70,7 +70,7 @@ class ProcessList:
         documentString = etree.tostring(document.getroot(), encoding='UTF-8')
             
         from xml.dom import minidom
-        prettyString = minidom.parseString(documentString).toprettyxml()
+        prettyString = minidom.parseString(documentString).toprettyxml(encoding='UTF-8')
        
         return prettyString
     #xmlPrettify
-- 
2.43.0


From eae6cedb58ed24702eecc199cb6b96c7a65d5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 19/67] fix: self-contained files keep References inside Groups
 and inside referenced files

---
 python/aces/clf/ExtensionGroup.py     |  6 +-----
 python/aces/clf/ExtensionReference.py |  4 ++--
 python/aces/clf/ProcessList.py        | 20 +++++++++++++++-----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 4da2cf2..6aa5df9 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -85,11 +85,7 @@ class Group(ProcessNode):
         node = ProcessNode.write(self, tree)
 
         # Add ProcessNode elements
-        for process in self._processes:
-            # Choose whether to write Reference node or nodes referred to
-            if isinstance(process, ProcessList.getClass("Reference")):
-                process.setWriteReferencedNodes(writeSelfContained)
-            process.write(node)
+        ProcessList.writeProcesses(self._processes, node, writeSelfContained)
         
         return node
     # write
diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 33ea651..0951039 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -106,9 +106,9 @@ class Reference(ProcessNode):
     # Read / Write
     def write(self, tree):
         if self._writeReferencedNodes:
+            # The nodes referred to can be, or contain, References themselves
             processes = self._processList.getProcesses()
-            for process in processes:
-                process.write(tree)
+            ProcessList.ProcessList.writeProcesses(processes, tree, True)
             return tree
         else:
             node = ProcessNode.write(self, tree)
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 9bc7290..84a69f7 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -136,17 +136,27 @@ class ProcessList:
             element.write(tree)
 
         # Add ProcessNode elements
-        for process in self._processes:
-            # Choose whether to write Reference node or nodes referred to
-            if isinstance(process, self.getClass("Reference")):
-                process.setWriteReferencedNodes(writeSelfContained)
-            process.write(tree)
+        self.writeProcesses(self._processes, tree, writeSelfContained)
         
         document = etree.ElementTree(tree)
 
         return document
     # write
 
+    @staticmethod
+    def writeProcesses(processes, tree, writeSelfContained=False):
+        for process in processes:
+            # Choose whether to write Reference node or nodes referred to
+            if isinstance(process, ProcessList.getClass("Reference")):
+                process.setWriteReferencedNodes(writeSelfContained)
+                process.write(tree)
+            # A Group can contain References
+            elif isinstance(process, ProcessList.getClass("Group")):
+                process.write(tree, writeSelfContained)
+            else:
+                process.write(tree)
+    # writeProcesses
+
     def writeFile(self, clfPath, writeSelfContained=False, writeGzip=False):
         document = self.write(writeSelfContained=writeSelfContained)
 
-- 
2.43.0


From 69b1b65cedb93aec6e54318b45b0d0f7d2a1ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 20/67] fix: self-contained write fails on a missing reference
 and activates a bypassed one

---
 python/aces/clf/ExtensionReference.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 0951039..cf74bca 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -105,7 +105,9 @@ class Reference(ProcessNode):
 
     # Read / Write
     def write(self, tree):
-        if self._writeReferencedNodes:
+        # Without a file that could be read, or when the file isn't used, there are no nodes to write
+        if (self._writeReferencedNodes and 
+            self._processList != None and not self.getFlag('bypass')):
             # The nodes referred to can be, or contain, References themselves
             processes = self._processList.getProcesses()
             ProcessList.ProcessList.writeProcesses(processes, tree, True)
-- 
2.43.0


From b125ae44f0634b4c85e769f8237a5ce3f1fb2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 21/67] fix: strict reading does not look inside Groups

---
 python/aces/clf/ExtensionGroup.py | 18 ++++++++++++++++--
 python/aces/clf/ProcessList.py    | 27 ++++++++++++++++-----------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 6aa5df9..7f49324 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -54,6 +54,7 @@ WHETHER DISCLOSED OR UNDISCLOSED.
 
 from ProcessNode import *
 from ProcessList import ProcessList
+import Errors
 
 class Group(ProcessNode):
     "A Common LUT Format Group ProcessNode element"
@@ -62,6 +63,7 @@ class Group(ProcessNode):
         "%s - Initialize the standard class variables" % 'Group'
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
+        self._strict = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -90,6 +92,12 @@ class Group(ProcessNode):
         return node
     # write
 
+    def read(self, element, strict=False):
+        # The children are read as strictly as the Group
+        self._strict = strict
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, child):
         elementType = self.getElementType(child.tag)
         elementClass = ProcessList.getClass(elementType)
@@ -97,15 +105,21 @@ class Group(ProcessNode):
 
         if elementClass != None:
             element = elementClass()
-            element.read(child)
 
             processNodeClass = ProcessList.getClass("ProcessNode")
             if issubclass(elementClass, processNodeClass):
+                element.read(child, strict=self._strict)
+                ProcessList.checkCompatibility(elementType, self._strict)
                 self.addProcess( element )
             else:
+                element.read(child)
                 self.addElement( element )
         else:
-            print( "Group::read - Ignoring element : %s" % child.tag)
+            msg = "Ignoring element : %s" % child.tag
+            if self._strict:
+                raise Errors.UnknownProcessNodeError(msg)
+            else:
+                print( "Group::read - %s" % msg)
 
         return None
     # readChild
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 84a69f7..dc1945d 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -186,6 +186,21 @@ class ProcessList:
         return True
     # writeFile
 
+    # Check that a given ProcessNode class is compatible with 
+    # the current feature set
+    @staticmethod
+    def checkCompatibility(elementType, strict=False):
+        if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
+            not (getFeatureCompatibility() & featureSets["Autodesk"])) or
+            (elementType in ["Group"] and
+                not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
+            msg = "Unsupported feature : ProcessNode type %s" % elementType
+            if strict:
+                raise Errors.UnsupportedExtensionError(msg)
+            else:
+                print( "ProcessList::read - %s" % msg )
+    # checkCompatibility
+
     def getElementType(self, tag):
         # ..find('}') allows us to strip out namespaces
         elementType = tag[tag.find('}')+1:]
@@ -217,17 +232,7 @@ class ProcessList:
                 if issubclass(elementClass, processNodeClass):
                     element.read(child, strict=strict)
 
-                    # Check that a given ProcessNode class is compatible with 
-                    # the current feature set
-                    if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
-                        not (getFeatureCompatibility() & featureSets["Autodesk"])) or
-                        (elementType in ["Group"] and
-                            not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
-                        msg = "Unsupported feature : ProcessNode type %s" % elementType
-                        if strict:
-                            raise Errors.UnsupportedExtensionError(msg)
-                        else:
-                            print( "ProcessList::read - %s" % msg )
+                    self.checkCompatibility(elementType, strict)
 
                     self.addProcess( element )
 
-- 
2.43.0


From de1646ca2e5a8cc3197e681ed72939a9d4a4a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 22/67] fix: reading an spi1d file with a blank line raises
 IndexError

---
 python/aces/lutFormats/LutSPI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 948e3ed..cc25a74 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -170,6 +170,10 @@ class LutFormatSPI(LutFormat.LutFormat):
             #print( "line : %s" % line )
             tokens = line.split()
 
+            # Skip blank lines
+            if not tokens:
+                continue
+
             if tokens[0] == "Version":
                 version = int(tokens[1])
                 if version != 1:
-- 
2.43.0


From 2f162f5876fe0f6c3e3f63f74e11f9b39dd7165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 23/67] fix: csp cubes whose dimensions differ are read out of
 order

---
 python/aces/lutFormats/LutCSP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7d45565..d459de1 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -334,7 +334,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         indexB = cspIndex/(resolution[0]*resolution[1])
 
                         # Convert from LUT index to sample number, CLF-style
-                        clfIndex = (indexR*resolution[0] + indexG)*resolution[1] + indexB
+                        clfIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
                         clfIndex *= 3
 
                         # Convert from text to float
-- 
2.43.0


From 34c3958b03c90b7a1ca1f5b0c3ff5dd4a9bc7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 24/67] fix: sampling a cube and writing it as csp fail when
 the dimensions differ

---
 python/aces/lutFormats/LutCSP.py   | 8 ++++----
 python/aces/lutFormats/Sampling.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index d459de1..146af24 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -507,9 +507,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, resolution)) )
      
             # Note: CSP increments red fastest
-            for b in range(resolution[0]):
+            for b in range(resolution[2]):
                 for g in range(resolution[1]):
-                    for r in range(resolution[2]):
+                    for r in range(resolution[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, data[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
@@ -553,9 +553,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, lutResolution3d)) )
      
             # Note: CSP increments red fastest
-            for b in range(lutResolution3d[0]):
+            for b in range(lutResolution3d[2]):
                 for g in range(lutResolution3d[1]):
-                    for r in range(lutResolution3d[2]):
+                    for r in range(lutResolution3d[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, samples3d[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c189838..1252157 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -334,7 +334,7 @@ def sample3D(processList,
     #print( "sample3D" )
 
     # Sample all values in 3D range
-    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
@@ -472,7 +472,7 @@ def sample1D3D1D(processList,
     #
     #print( "sampleAndWrite1D3D1D - create 3D LUT" )
 
-    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
-- 
2.43.0


From a9a4f6da4f169ec49aef4dbfe97a65e12a808d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 25/67] fix: all three tables of a 1D ctl file hold the red
 samples

---
 python/aces/lutFormats/LutCTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 62dbfbd..1358d85 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -176,7 +176,7 @@ class LutFormatCTL(LutFormat.LutFormat):
               for j in range(components):
                 fp.write('const float lut%d[] = {\n' % j)
                 for i in range(0, entries):
-                    fp.write('%s' % data[i * channels])
+                    fp.write('%s' % data[i * channels + j])
                     if i != (entries-1):
                       fp.write(',')
                     fp.write('\n')
-- 
2.43.0


From 4cbd9f70ea71ad5226379c4f7132833478d5b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 26/67] fix: the output shaper is sampled from the inverse of
 the input shaper

---
 python/aces/lutFormats/Sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 1252157..c8c7f9f 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -514,7 +514,7 @@ def sample1D3D1D(processList,
         for lutIndex in range(lutResolution1dOut):
             sampleValue = float(lutIndex)/(lutResolution1dOut-1)
 
-            lutValue = shaperInPLInverse.process([sampleValue]*3)
+            lutValue = shaperOutPLInverse.process([sampleValue]*3)
 
             samples1dOut[lutIndex*3:(lutIndex+1)*3] = lutValue
     else:
-- 
2.43.0


From 6295a042a791ae8617da68264fabbf9d67fb9b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 27/67] fix: the input shaper of a baked clf file is applied
 backwards

---
 python/aces/lutFormats/LutCLF.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/python/aces/lutFormats/LutCLF.py b/python/aces/lutFormats/LutCLF.py
index f14c496..7573d82 100644
--- a/python/aces/lutFormats/LutCLF.py
+++ b/python/aces/lutFormats/LutCLF.py
@@ -68,7 +68,6 @@ __version__ = '.'.join((__major_version__,
 import os
 import clf
 
-import Sampling
 import LutFormat
 
 class LutFormatCLF(LutFormat.LutFormat):
@@ -125,23 +124,23 @@ class LutFormatCLF(LutFormat.LutFormat):
                        samples1dOut,
                        lutResolution1dOut,
                        outputMin,
-                       outputMax,
-                       inversesUseIndexMaps=True,
-                       inversesUseHalfDomain=True):
+                       outputMax):
         lutpns = []
 
         # Create the input shaper
         if samples1dIn:
-            if inversesUseIndexMaps:
-                #print( "Generating inverse of 1D LUT using Index Maps")
-                lutpnInverses = Sampling.generateLUT1DInverseIndexMap([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)
-            elif inversesUseHalfDomain:
-                #print( "Generating full half-domain inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseHalfDomain([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax, rawHalfs=True)
-            else:
-                #print( "Generating resampled inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseResampled([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)            
-            lutpns.extend(lutpnInverses)
+            # The samples are those of the forward shaper, over the range of input values
+            if inputMin != 0.0 or inputMax != 1.0:
+                rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "range", "range")
+                rangepn.setMinInValue(inputMin)
+                rangepn.setMaxInValue(inputMax)
+                rangepn.setMinOutValue(0.0)
+                rangepn.setMaxOutValue(1.0)
+                lutpns.append(rangepn)
+
+            shaperpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d_in", "lut1d_in", interpolation='linear')
+            shaperpn.setArray(3, samples1dIn)
+            lutpns.append(shaperpn)
 
         # Create the 3D LUT
         clfSamples = [0.0]*(lutResolution3d[0]*lutResolution3d[1]*lutResolution3d[2])*3
-- 
2.43.0


From eed1bc1f849fc7c2f9b70fcd97223efc7ddf3197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 28/67] fix: half-domain inverses ignore the range of the LUT's
 input

---
 python/aces/lutFormats/Sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c8c7f9f..4908d9a 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -232,6 +232,9 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 # Find the output value
                 outputInterpolated = (lutInterp + lutIndexLow)/(inputResolution-1)
 
+                # Expand from [0,1] to the range of the LUT's input
+                outputInterpolated = outputInterpolated*(maxInputValue - minInputValue) + minInputValue
+
             inverseSample[channel] = outputInterpolated
 
         inverseSamples[inverseLutIndex*channels:(inverseLutIndex+1)*channels] = inverseSample
-- 
2.43.0


From 2ad0ee39fc3dafe18771c64a033dfbc8d203ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 29/67] fix: inverting a 1D LUT that ends in equal values
 divides by zero

---
 python/aces/lutFormats/Sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 4908d9a..96af478 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -146,7 +146,7 @@ def generateLUT1DInverseResampled(resolution, samples, minInputValue, maxInputVa
             sampleIndexLow = lutIndexLow*channels + channel
             sampleIndexHigh = lutIndexHigh*channels + channel
 
-            if lutIndexLow == lutIndexHigh:
+            if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                 lutInterp = 0.0
             else:
                 lutInterp = (rangedValue - samples[sampleIndexLow])/(
@@ -223,7 +223,7 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 sampleIndexLow = lutIndexLow*channels + channel
                 sampleIndexHigh = lutIndexHigh*channels + channel
 
-                if lutIndexLow == lutIndexHigh:
+                if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                     lutInterp = 0.0
                 else:
                     lutInterp = (inputValue - samples[sampleIndexLow])/(
-- 
2.43.0


From b31d72187794f776324675e04498efba1bcadda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 30/67] fix: csp preluts that differ between channels, or of
 two entries, are misread

---
 python/aces/lutFormats/LutCSP.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 146af24..c665b33 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -171,9 +171,7 @@ class LutFormatCSP(LutFormat.LutFormat):
         # resolution of the resampled lut relative to the source
         outputResolution = inputResolution
 
-        # If the prelut only affects the range, skip this step
-        if inputResolution > 2:
-            outputResolution *= 2
+        outputResolution *= 2
 
         # Find the minimum and maximum input
         # XXX
@@ -195,7 +193,8 @@ class LutFormatCSP(LutFormat.LutFormat):
         prelutpns.append(rangepn)
 
         # If the prelut only affects the range, skip generating a lut to represent it
-        if inputResolution > 2:
+        rangePrelut = [[minInputValue, maxInputValue], [0.0, 1.0]]
+        if [prelutR, prelutG, prelutB] != [rangePrelut]*3:
             # Generate 1d LUT by running values through the
             # - inverse normalization
             # - the cspprelut
@@ -212,20 +211,24 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                 # For each channel
                 for channel in range(len(cspPreluts)):
+                    (prelutInput, prelutOutput) = cspPreluts[channel]
+
+                    # The preluts of the other channels can cover a wider range
+                    prelutValue = min(prelutInput[-1], max(prelutInput[0], rangedValue))
+
                     # Find the location of the de-normalized value in the prelut
-                    for prelutIndex in range(inputResolution):
-                        if cspPreluts[channel][0][prelutIndex] > rangedValue:
-                            break
+                    prelutIndexHigh = 1
+                    while prelutInput[prelutIndexHigh] < prelutValue:
+                        prelutIndexHigh += 1
+                    prelutIndexLow = prelutIndexHigh-1
 
                     # Get the interpolation value
-                    prelutIndexLow = max(0, prelutIndex-1)
-                    prelutIndexHigh = min(inputResolution-1, prelutIndex)
-                    prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
-                        cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
+                    prelutInterp = (prelutValue - prelutInput[prelutIndexLow])/(
+                        prelutInput[prelutIndexHigh] - prelutInput[prelutIndexLow])
 
                     # Find the output value
-                    outputInterpolationRange = (cspPreluts[channel][1][prelutIndexHigh] - cspPreluts[channel][1][prelutIndexLow])
-                    outputInterpolated = prelutInterp*outputInterpolationRange + cspPreluts[channel][1][prelutIndexLow]
+                    outputInterpolationRange = (prelutOutput[prelutIndexHigh] - prelutOutput[prelutIndexLow])
+                    outputInterpolated = prelutInterp*outputInterpolationRange + prelutOutput[prelutIndexLow]
 
                     sample[channel] = outputInterpolated
 
-- 
2.43.0


From dd8c7efe7ece205308bade0903e300702eba565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 31/67] fix: writing a 1D/3D csp file without an input shaper
 raises TypeError

---
 python/aces/lutFormats/LutCSP.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index c665b33..76cc1d2 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -529,6 +529,11 @@ class LutFormatCSP(LutFormat.LutFormat):
 
         #print( ' '.join(map(str, lutResolution3d)) )
 
+        # Without an input shaper, the prelut only holds the range
+        if samples1dIn is None:
+            samples1dIn = [0.0]*3 + [1.0]*3
+            lutResolution1dIn = 2
+
         with open(lutPath, 'w') as fp:
             fp.write('CSPLUTV100\n')
             fp.write('3D\n')
-- 
2.43.0


From e89c1e3da54c724dd1287a606f1330a4e88b08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 32/67] fix: convertCLFtoLUT ignores --lutResolution3d

---
 python/aces/convertCLFtoLUT.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/convertCLFtoLUT.py b/python/aces/convertCLFtoLUT.py
index 7627e64..d5ef078 100644
--- a/python/aces/convertCLFtoLUT.py
+++ b/python/aces/convertCLFtoLUT.py
@@ -193,10 +193,10 @@ def main():
     if options.lutResolution1d3d1d is not None:
         #print( options.shaperIn )
         shaperInLutResolution = int(options.lutResolution1d3d1d[0][0])
-        lutResolution3d = int(options.lutResolution1d3d1d[0][1])
+        shaperLutResolution3d = int(options.lutResolution1d3d1d[0][1])
         shaperOutLutResolution = int(options.lutResolution1d3d1d[0][2])
     else:
-        (shaperInLutResolution, lutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
+        (shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
 
     # Figure out the data format
     lutDataFormat = lutFormats.LUTDATAFORMAT_1D
@@ -222,7 +222,7 @@ def main():
     print( "%25s : %s" % ("data format", lutDataFormat))
     print( "%25s : %s" % ("1D lut resolution", lutResolution1d))
     print( "%25s : %s" % ("3D lut resolution", lutResolution3d))
-    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, lutResolution3d, shaperOutLutResolution)))
+    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution)))
     print( "%25s : %s" % ("min input value", inputMinValue))
     print( "%25s : %s" % ("max input value", inputMaxValue))
     print( "%25s : %s" % ("shaper in", "%s, %s, %s" % (shaperInType, shaperInMin, shaperInMax)))
@@ -238,7 +238,7 @@ def main():
                         lutDataFormat,
                         lutResolution1d,
                         lutResolution3d,
-                        [shaperInLutResolution, lutResolution3d, shaperOutLutResolution],
+                        [shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution],
                         inputMinValue,
                         inputMaxValue,
                         [shaperInType, shaperInMin, shaperInMax],
-- 
2.43.0


From f5e1c6659a1d95cc37eebd1adafb6f899a430a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 33/67] fix: single threaded filterImageWithCLF only filters
 row 5

---
 python/aces/filterImageWithCLF.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index e79cceb..ba61501 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -585,9 +585,7 @@ def filterImageWithCLF(inputPath,
     else:
         print( "Filtering image - single threaded" )
 
-        #for j in range(height):
-        j = 5
-        if True:
+        for j in range(height):
             # Using filterRow_stride instead of filterRow_pixel
             # Processing a full row is ~10% faster than processing individual pixels
             filterRow_stride(j,
-- 
2.43.0


From 35e4af73f1764720ca227b7a125e7d2810165618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 34/67] fix: filterImageWithCLF crashes on an image that cannot
 be opened, and compares the pixel array with None

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ba61501..a64a6bf 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -194,7 +194,7 @@ def readPixelArray(inputPath,
             print( "Unpacking half-float values" )
             sourceData = oiioFloatPixelsToNPHalfArray(width, height, channels, sourceData)
     else:
-        (sourceData, bitDepth, width, height, channels, metadata) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
+        (sourceData, bitDepth, width, height, channels, metadata, channelnames) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
 
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
@@ -492,7 +492,7 @@ def filterImageWithCLF(inputPath,
     t0 = timeit.default_timer()
 
     pixels, inBitDepth, width, height, channels, metadata, channelnames = readPixelArray(inputPath)
-    if pixels == None:
+    if pixels is None:
         print( "\nImage %s could not be opened. Filtering aborted.\n" % inputPath )
         return
     #print( len(pixels), bitDepth, width, height, channels )
-- 
2.43.0


From 52f4944cdd5c5673f80bc3afc4f19dfeaf5d356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 35/67] fix: filterImageWithCLF divides by zero on an image
 with one row

---
 python/aces/filterImageWithCLF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index a64a6bf..10371d5 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -344,8 +344,8 @@ def filterRow_pixel(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1.0, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     for i in range(width):
         index = (row*width + i)*channels
@@ -388,8 +388,8 @@ def filterRow_stride(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1.0, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     index = (row*width)*channels
 
@@ -437,8 +437,8 @@ def filterRow_parallel(row,
     if verbose:
         print( "process %d - row %d" % (os.getpid(), row) )
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1.0, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     # Copy a single row
     ovalue = pixels
-- 
2.43.0


From abd82f241d4b935c9dde347fe35a302ece1c8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 36/67] fix: integer output of filterImageWithCLF wraps around
 and truncates

---
 python/aces/filterImageWithCLF.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 10371d5..18d6ac7 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -199,6 +199,17 @@ def readPixelArray(inputPath,
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
 
+#
+# Convert a float value to an integer code value
+#  Rounds to the nearest integer, limited to the range of the integer bit depth
+#
+def floatToInteger(value, maxValue):
+    # NaN compares false with everything, and is mapped to 0
+    if not value > 0.0:
+        return 0
+    return int(min(value, maxValue) + 0.5)
+# floatToInteger
+
 #
 # Write an image
 #
@@ -229,7 +240,7 @@ def writePixelArray(outputPath,
     if type == oiio.UINT8:
         pixels8 = np.zeros(width*height*channels, dtype=np.uint8)
         for i in range(len(pixels)):
-            pixels8[i] = int(pixels[i])
+            pixels8[i] = floatToInteger(pixels[i], 255)
         pixels = pixels8
 
     # Convert float values to 16-bit unsigned integer
@@ -239,15 +250,18 @@ def writePixelArray(outputPath,
         # them all as 16-bit / 65535. This bit shift will move the 10 or
         # 12 bit values back to the 16 bit range that OIIO expects.
         bitShift = 0
+        maxValue = 65535
         if bitDepth == clf.bitDepths["UINT10"]:
             bitShift = 6
+            maxValue = 1023
         elif bitDepth == clf.bitDepths["UINT12"]:
             bitShift = 4
+            maxValue = 4095
 
         pixels16 = np.zeros(width*height*channels, dtype=np.uint16)
         # Cast to 16 bit and reset integer bit-depth if necessary
         for i in range(len(pixels)):
-            pixels16[i] = int(pixels[i]) << bitShift
+            pixels16[i] = floatToInteger(pixels[i], maxValue) << bitShift
         pixels = pixels16
 
     # OIIO doesn't store half-float values directly, so this will
-- 
2.43.0


From 0c27c5382920df4f3784d226603182c28873dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 37/67] fix: filterImageWithCLF from integer to float images
 raises KeyError

---
 python/aces/filterImageWithCLF.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 18d6ac7..69fb130 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -297,6 +297,9 @@ def writePixelArray(outputPath,
         if attr.name == "oiio:BitsPerSample":
             #print( "Resetting bits per sample. bit depth value : %s. Metadata value : %d" % (
             #    bitDepth, value) )
+            # Float formats don't have an entry and don't need the value
+            if not (bitDepth in bitDepthValue):
+                continue
             value = bitDepthValue[bitDepth]
 
         outputSpec.attribute( attr.name, attr.type, value )
-- 
2.43.0


From cad0bf5ebe1913679598d12f7daf177a291ebe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 38/67] fix: convertOCIOtoCLF indexes the matrix with the
 result of a comparison

---
 python/aces/convertOCIOtoCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 4c6dd2d..1b46f5b 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -79,8 +79,8 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
-            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11 == 0.0] and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14 == 0.0] and matrix[15 == 1.0]) ):
+            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
-- 
2.43.0


From 98005ba266512e38597732ce9badb5759dfd1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 39/67] fix: convertOCIOtoCLF puts 16 values in a 3x4 matrix

---
 python/aces/convertOCIOtoCLF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 1b46f5b..eb989d9 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -88,6 +88,7 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 matrix[3] = offset[0]
                 matrix[7] = offset[1]
                 matrix[11] = offset[2]
+                matrix = matrix[0:12]
                 # CLF ignores the alpha offset
 
             # Or just copy into a smaller matrix
-- 
2.43.0


From 9e21529e835529a441ac9442d3b525bb660b3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 40/67] fix: convertOCIOtoCLF drops the offset of a full 4x4
 matrix

---
 python/aces/convertOCIOtoCLF.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index eb989d9..3b36d62 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -101,6 +101,16 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 resolution = [3, 3, 3]
                 matrix = matrix33
 
+        # A full 4x4 matrix needs a fifth column to hold the offset
+        elif( len(matrix) == 16 and any( [o != 0.0 for o in offset] ) ):
+            matrix45 = []
+            for row in range(4):
+                matrix45.extend( matrix[row*4:row*4+4] )
+                matrix45.append( offset[row] )
+
+            resolution = [4, 5, 3]
+            matrix = matrix45
+
         mpn1 = clf.Matrix(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "matrix1", "matrix1")
         mpn1.setMatrix(resolution, matrix)
     else:
-- 
2.43.0


From 4a58e7c2be518f15f6f7a17f7527076ed5f817de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 41/67] fix: IndexMap.setValues calls a method that does not
 exist

---
 python/aces/clf/IndexMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 10d231e..14d69c9 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -82,7 +82,7 @@ class IndexMap:
     def setValues(self, values):
         self._values = values
         if self._useCachedProcess and self._values != [] and self._dimension != []:
-            self._createCachedEval()
+            self._createCachedProcess()
     def getValues(self):
         return self._values
 
-- 
2.43.0


From 92bdca5d5d23006db95bc6c5edbc8add197df268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 42/67] fix: the interpolation asked for is ignored for csp
 files

---
 python/aces/lutFormats/LutCSP.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 76cc1d2..d0c37f1 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -388,11 +388,16 @@ class LutFormatCSP(LutFormat.LutFormat):
                     lutpns.append(prelutpn)
 
         if format == "3D":
-            lutpn = clf.LUT3D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut3d", "lut3d")
+            # Translate between different names for the same interpolation if necessary
+            ocioToCLFInterpolation = {'linear':'trilinear'}
+            if interpolation in ocioToCLFInterpolation:
+                interpolation = ocioToCLFInterpolation[interpolation]
+
+            lutpn = clf.LUT3D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut3d", "lut3d", interpolation=interpolation)
             lutpn.setArray(resolution, samples)
             lutpns.append(lutpn)
         elif format == "1D":
-            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d", "lut1d")
+            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d", "lut1d", interpolation=interpolation)
             lutpn.setArray(3, samples)
             lutpns.append(lutpn)
 
-- 
2.43.0


From 903469de01698ef6b559e5963d36c1c8bfc5c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 43/67] fix: tables with infinite or NaN values and an integer
 bit depth can't be written or printed

---
 python/aces/clf/Array.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index a7f807c..573edba 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -145,15 +145,9 @@ class Array:
         else:
             columns = self._dimensions[1]
 
-        integers = self._valuesAreIntegers
-
         for n in range(len(self._values)/columns):
             sample = self._values[n*columns:(n+1)*columns]
 
-            # Integer values
-            if integers:
-                sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
-
             # Float Values
             # Floats encoded using bitwise equivalent hex or integer values
             if self._floatEncoding != 'string':
@@ -265,7 +259,7 @@ class Array:
         if rows > 10:
             for n in (range(3)):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and np.all(np.isfinite(sample)):
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
@@ -275,7 +269,7 @@ class Array:
 
             for n in (range(rows-3,rows)):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and np.all(np.isfinite(sample)):
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
@@ -283,7 +277,7 @@ class Array:
         else:
             for n in range(rows):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and np.all(np.isfinite(sample)):
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
-- 
2.43.0


From 5d46234b6e3e77bec5326910ab769a8043d03457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 44/67] fix: csp files with other blank lines than the writer's
 are misread

---
 python/aces/lutFormats/LutCSP.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index d0c37f1..e38978c 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -248,7 +248,8 @@ class LutFormatCSP(LutFormat.LutFormat):
     @staticmethod
     def readCSP(lutPath, inverse=False, interpolation='linear'):
         with open(lutPath) as f:
-            lines = f.read().splitlines()
+            # Blank lines carry no information
+            lines = [line for line in f.read().splitlines() if line.strip()]
 
         resolution = []
         samples = []
@@ -278,11 +279,6 @@ class LutFormatCSP(LutFormat.LutFormat):
                         #print( "metadata line : %s" % line.rstrip() )
 
                 #print( "metadata : %s" % metadata)
-                dataStart += 1
-                
-                while lines[dataStart].rstrip() == '':
-                    #print( "blank line")
-                    dataStart += 1
 
                 #print( "Prelut data starts on line : %d" % dataStart )
 
@@ -312,11 +308,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                 #
                 # Read LUT data
                 #
-                dataStart = dataStart+10
-
-                while lines[dataStart].rstrip() == '':
-                    #print( "blank line")
-                    dataStart += 1
+                dataStart = dataStart+9
 
                 resolution = map(int, lines[dataStart].split())
                 dataStart += 1
-- 
2.43.0


From be64cf2092c94f5ee39500474a1ceb78fd26ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 45/67] fix: csp files without a metadata section can't be read

---
 python/aces/lutFormats/LutCSP.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index e38978c..ed90f81 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -262,21 +262,18 @@ class LutFormatCSP(LutFormat.LutFormat):
             format = lines[1].split()[0]
 
             if format in ["1D", "3D"]:
-                # Find the first line of metadata
-                metaStart = 2
-                while lines[metaStart].rstrip() != "BEGIN METADATA":
-                    metaStart += 1
-                metaStart += 1
-
+                # Read the metadata, which is optional
                 metadata = ""
-                dataStart = metaStart
-                for line in lines[metaStart:]:
+                dataStart = 2
+                if lines[dataStart].rstrip() == "BEGIN METADATA":
                     dataStart += 1
-                    if line.rstrip() == "END METADATA":
-                        break
-                    else:
-                        metadata += (line.rstrip())
-                        #print( "metadata line : %s" % line.rstrip() )
+                    for line in lines[dataStart:]:
+                        dataStart += 1
+                        if line.rstrip() == "END METADATA":
+                            break
+                        else:
+                            metadata += (line.rstrip())
+                            #print( "metadata line : %s" % line.rstrip() )
 
                 #print( "metadata : %s" % metadata)
 
-- 
2.43.0


From 66ff1c2844b394bb6f0bb7dd439bec276a73f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 46/67] fix: csp files baked with an output shaper hold the
 shaper's values

---
 python/aces/lutFormats/LutCSP.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index ed90f81..c0c3a80 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -144,6 +144,15 @@ class LutFormatCSP(LutFormat.LutFormat):
                     outputMin,
                     outputMax):
         #print( "%s format write 1D 3D 1D - %s" % (LutFormatCSP.formatType, lutPath) )
+        # A csp file has no output shaper, so it is applied to the 3D samples
+        if samples1dOut is not None:
+            shaperOutPL = clf.ProcessList()
+            lutpn = clf.LUT1D()
+            lutpn.setArray(3, samples1dOut)
+            shaperOutPL.addProcess(lutpn)
+            samples3d = [[[shaperOutPL.process(value) for value in row]
+                for row in plane] for plane in samples3d]
+
         return LutFormatCSP.writeCSP1D3D(lutPath,
                                          samples1dIn,
                                          lutResolution1dIn,
-- 
2.43.0


From 2d1e2abd0216d0eb9ea8507baf4b4be23c594fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 47/67] fix: the indices of spi3d entries are ignored

---
 python/aces/lutFormats/LutSPI.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index cc25a74..f3404e3 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -258,14 +258,21 @@ class LutFormatSPI(LutFormat.LutFormat):
                     tokens = map(int, lines[2].split())
                     resolution = tokens
 
-                    # This assumes that the value are printed in order
-                    # with blue incrementing fastest like the CLF specification
-                    # This is generally true, but should be generalized at some
-                    # point to take into account the indices printed as the 
-                    # first three values on each line
+                    # The values are generally printed in order with blue
+                    # incrementing fastest like the CLF specification, but it
+                    # is the indices printed as the first three values on each
+                    # line that say where the values go
+                    samples = [0.0]*resolution[0]*resolution[1]*resolution[2]*3
                     for line in lines[3:]:
-                        tokens = map(float, line.split())
-                        samples.extend(tokens[3:]) 
+                        tokens = line.split()
+
+                        # Skip blank lines
+                        if not tokens:
+                            continue
+
+                        (indexR, indexG, indexB) = map(int, tokens[:3])
+                        index = (indexR*resolution[1] + indexG)*resolution[2] + indexB
+                        samples[index*3:(index+1)*3] = map(float, tokens[3:6])
 
         #
         # Create ProcessNodes
-- 
2.43.0


From 38d09555dbe1a4c25c10c44007545429a98c4566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 48/67] fix: half-domain tables are sampled in half precision
 arithmetic

---
 python/aces/clf/LUT1D.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 73fc949..b181667 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import numpy as np
+
 from ProcessNode import *
 from Array import Array
 from IndexMap import IndexMap
@@ -265,7 +267,8 @@ def simpleSampledLUTHalfDomain(id,
 
     for i in range(resolution):
         # Figure out which half value corresponds to the specific 16 bit integer value
-        sample = uint16ToHalf(i)
+        # The function shouldn't be limited to half precision arithmetic though
+        sample = np.float64(uint16ToHalf(i))
 
         # Apply the function to the sample value
         # Should take the channel as input, or process an RGB triple
-- 
2.43.0


From 54976ad6810fa0966eeafee2e9d9efe21c2a8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 49/67] fix: setting the array of a node a second time writes
 both arrays

---
 python/aces/clf/LUT1D.py  | 2 ++
 python/aces/clf/LUT3D.py  | 2 ++
 python/aces/clf/Matrix.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index b181667..1d38dcc 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -100,6 +100,8 @@ class LUT1D(ProcessNode):
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
         rawHalfs = self.getFlag('rawHalfs')
 
+        # Replaces the array set before, if any
+        self._elements = [e for e in self._elements if not isinstance(e, Array)]
         self._array = Array(dimensions, 
             values, 
             rawHalfs=rawHalfs, 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index bc50d3f..0755e22 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -92,6 +92,8 @@ class LUT3D(ProcessNode):
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
+        # Replaces the array set before, if any
+        self._elements = [e for e in self._elements if not isinstance(e, Array)]
         self._array = Array(dimensions, 
             values, 
             integers,
diff --git a/python/aces/clf/Matrix.py b/python/aces/clf/Matrix.py
index 9fe54d2..1027c5e 100644
--- a/python/aces/clf/Matrix.py
+++ b/python/aces/clf/Matrix.py
@@ -71,6 +71,8 @@ class Matrix(ProcessNode):
             values, 
             integers,
             floatEncoding=floatEncoding)
+        # Replaces the array set before, if any
+        self._elements = [e for e in self._elements if not isinstance(e, Array)]
         self._array = values
         self.addElement( values )
     # setMatrix
-- 
2.43.0


From a34b26967b7a6179970145d44cbf5bcde4f4256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 50/67] fix: setting index maps a second time adds to the ones
 set before

---
 python/aces/clf/LUT1D.py | 4 ++++
 python/aces/clf/LUT3D.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 1d38dcc..8e046c0 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -79,6 +79,10 @@ class LUT1D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        # Replaces the index maps set before, if any
+        self._elements = [e for e in self._elements if not isinstance(e, IndexMap)]
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 0755e22..f52a892 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -71,6 +71,10 @@ class LUT3D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        # Replaces the index maps set before, if any
+        self._elements = [e for e in self._elements if not isinstance(e, IndexMap)]
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
-- 
2.43.0


From 6e0f4e17d1eb91b4c3acaf658744239a94ad52ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 51/67] fix: the paths set with Reference.setPaths aren't
 written

---
 python/aces/clf/ExtensionReference.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index cf74bca..8f24885 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -78,19 +78,18 @@ class Reference(ProcessNode):
         path='', basePath='', alias='', writeReferencedNodes=False):
         "%s - Initialize the standard class variables" % 'Reference'
         ProcessNode.__init__(self, 'Reference', inBitDepth, outBitDepth, id, name)
-        if alias != '':
-            self._attributes['alias'] = alias
-        if path != '':
-            self._attributes['path'] = path
-        if basePath != '':
-            self._attributes['basePath'] = basePath
-
         self._writeReferencedNodes = writeReferencedNodes
 
         self.setPaths(path, basePath, alias)
     # __init__
 
     def setPaths(self, path='', basePath='', alias=''):
+        for key, value in [('alias', alias), ('path', path), ('basePath', basePath)]:
+            if value != '':
+                self._attributes[key] = value
+            elif key in self._attributes:
+                del self._attributes[key]
+
         self._resolvedPath = resolvePath(path, basePath, alias)
         if self._resolvedPath != None and os.path.exists(self._resolvedPath):
             self._processList = ProcessList.ProcessList(self._resolvedPath)
-- 
2.43.0


From 08d5c25a1ed64f1090745eb6c74fecc21ac78a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 52/67] fix: the namespace of a ProcessList is lost when it is
 read

---
 python/aces/clf/ProcessList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index dc1945d..9b1dd82 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -212,6 +212,10 @@ class ProcessList:
     def read(self, element, strict=False):
         root = element
 
+        # The namespace is part of the tag here, but written as an attribute
+        if root.tag[:1] == '{':
+            self.setNamespace(root.tag[1:root.tag.find('}')])
+
         # Store attributes
         for key, value in root.attrib.iteritems():
             self.setAttribute(key, value)
-- 
2.43.0


From 2ebb7d868d63e46908b1e70164387cb44e514ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 53/67] fix: attributes set after the array of a node don't
 reach the array

---
 python/aces/clf/LUT1D.py  | 8 ++++++++
 python/aces/clf/LUT3D.py  | 7 +++++++
 python/aces/clf/Matrix.py | 9 +++++++++
 3 files changed, 24 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 8e046c0..6a901c6 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -124,6 +124,14 @@ class LUT1D(ProcessNode):
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
+    def setAttribute(self, name, value):
+        ProcessNode.setAttribute(self, name, value)
+        # The array is printed and written according to these attributes
+        if self._array != None:
+            self._array.setValuesAreIntegers(bitDepthIsInteger(self.getAttribute('outBitDepth')))
+            self._array.setRawHalfs(self.getFlag('rawHalfs'))
+    # setAttribute
+
     def readChild(self, element):
         child = None
         elementType = self.getElementType(element.tag)
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index f52a892..33c19a1 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -115,6 +115,13 @@ class LUT3D(ProcessNode):
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
+    def setAttribute(self, name, value):
+        ProcessNode.setAttribute(self, name, value)
+        # The array is printed and written according to these attributes
+        if self._array != None:
+            self._array.setValuesAreIntegers(bitDepthIsInteger(self.getAttribute('outBitDepth')))
+    # setAttribute
+
     def readChild(self, element):
         child = None
         elementType = self.getElementType(element.tag)
diff --git a/python/aces/clf/Matrix.py b/python/aces/clf/Matrix.py
index 1027c5e..f57dc5d 100644
--- a/python/aces/clf/Matrix.py
+++ b/python/aces/clf/Matrix.py
@@ -63,6 +63,8 @@ class Matrix(ProcessNode):
     def __init__(self, inBitDepth=bitDepths["FLOAT16"], outBitDepth=bitDepths["FLOAT16"], id="", name=""):
         "%s - Initialize the standard class variables" % 'Matrix'
         ProcessNode.__init__(self, 'Matrix', inBitDepth, outBitDepth, id, name)
+
+        self._array = None
     # __init__
 
     def setMatrix(self, dimensions, values, floatEncoding='string'):
@@ -77,6 +79,13 @@ class Matrix(ProcessNode):
         self.addElement( values )
     # setMatrix
 
+    def setAttribute(self, name, value):
+        ProcessNode.setAttribute(self, name, value)
+        # The array is printed and written according to these attributes
+        if self._array != None:
+            self._array.setValuesAreIntegers(bitDepthIsInteger(self.getAttribute('outBitDepth')))
+    # setAttribute
+
     def readChild(self, element):
         child = None
         elementType = self.getElementType(element.tag)
-- 
2.43.0


From 609ed128d6c906c8a59aed8eae0a9221e46b94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 54/67] fix: the cache of an index map outlives the values it
 was made from

---
 python/aces/clf/IndexMap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 14d69c9..4b06d67 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -81,6 +81,8 @@ class IndexMap:
 
     def setValues(self, values):
         self._values = values
+        # What was cached belongs to the previous values
+        self._processCached = None
         if self._useCachedProcess and self._values != [] and self._dimension != []:
             self._createCachedProcess()
     def getValues(self):
@@ -171,6 +173,7 @@ class IndexMap:
         self._values = []
         self._values.append( map(lambda p: float(p.split('@')[0]), element.text.split()) )
         self._values.append( map(lambda p: float(p.split('@')[1]), element.text.split()) )
+        self._processCached = None
     # read
 
     # Process values
-- 
2.43.0


From 3b3d692edbb0da9557e958e888c5a6c22f2f6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 55/67] fix: a Reference with an alias and a base path but no
 path can't be read

---
 python/aces/clf/ExtensionReference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 8f24885..81a6954 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -62,8 +62,8 @@ from ProcessNode import *
 # Ignores the 'alias' attribute for now
 def resolvePath(path, basePath, alias):
     fullPath = None
-    if 'path' != '':
-        if 'basePath' != '':
+    if path != '':
+        if basePath != '':
             fullPath = os.path.join(basePath, path)
             #print( fullPath )
         else:
-- 
2.43.0


From da22c4c317907bf9f370f7bddfee190d6c79a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 56/67] fix: names, ids and paths that say True or False are
 read as booleans

---
 python/aces/clf/ProcessNode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index b289d83..cb04869 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -196,7 +196,8 @@ class ProcessNode():
         # Store attributes
         for key, value in element.attrib.iteritems():
             # Convert text to booleans where appropriate
-            if value in ["True", "False"]:
+            if (key in ['bypass', 'defaultRange', 'halfDomain', 'rawHalfs'] and 
+                value in ["True", "False"]):
                 value = (value == "True")
             self.setAttribute(key, value)
 
-- 
2.43.0


From ba713de831c5b367b728c00a259900e30ab0bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 57/67] fix: spi and csp files with missing values are read as
 if they were zero

---
 python/aces/lutFormats/LutCSP.py | 19 +++++++++++++++----
 python/aces/lutFormats/LutSPI.py | 14 +++++++++++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index c0c3a80..2554609 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -326,7 +326,8 @@ class LutFormatCSP(LutFormat.LutFormat):
                     # CSP incremements LUT samples red, then green, then blue
                     # CLF incremements LUT samples blue, then green, then red 
                     # so we need to move samples around
-                    samples = [0.0]*resolution[0]*resolution[1]*resolution[2]*3
+                    entries = resolution[0]*resolution[1]*resolution[2]
+                    samples = [0.0]*entries*3
                     cspIndex = 0
                     for line in lines[dataStart:]:
                         # Convert from sample number to LUT index, CSP-style
@@ -349,11 +350,12 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
-                        cspIndex += 1
+                            cspIndex += 1
 
                 # 1D LUT data
                 elif format == "1D":
-                    samples = [0.0]*resolution[0]*3
+                    entries = resolution[0]
+                    samples = [0.0]*entries*3
 
                     cspIndex = 0
                     for line in lines[dataStart:]:
@@ -371,7 +373,16 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
-                        cspIndex += 1
+                            cspIndex += 1
+
+                # Tables or preluts with missing values can't be used
+                preluts = [(prelutRedResolution, prelutRedInput, prelutRedOutput),
+                    (prelutGreenResolution, prelutGreenInput, prelutGreenOutput),
+                    (prelutBlueResolution, prelutBlueInput, prelutBlueOutput)]
+                if (cspIndex != entries or
+                    any([len(i) != r or len(o) != r for (r, i, o) in preluts])):
+                    print( "%s does not hold the values that its header promises" % lutPath )
+                    return False
 
         #
         # Create ProcessNodes
diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index f3404e3..10418a8 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -192,6 +192,11 @@ class LutFormatSPI(LutFormat.LutFormat):
             #else:
             #    print( "Skipping line : %s" % tokens )
 
+        if samples == [] or len(samples) != resolution[0]*resolution[1]:
+            print( "%s does not hold the %d x %d values of a version 1 spi1d file" % (
+                lutPath, resolution[0], resolution[1]) )
+            return False
+
         #
         # Create ProcessNodes
         #
@@ -245,6 +250,7 @@ class LutFormatSPI(LutFormat.LutFormat):
 
         resolution = [0, 0, 0]
         samples = []
+        indices = set()
         indexMap = []
         minInputValue = 0.0
         maxInputValue = 1.0
@@ -272,7 +278,13 @@ class LutFormatSPI(LutFormat.LutFormat):
 
                         (indexR, indexG, indexB) = map(int, tokens[:3])
                         index = (indexR*resolution[1] + indexG)*resolution[2] + indexB
-                        samples[index*3:(index+1)*3] = map(float, tokens[3:6])
+                        (samples[index*3], samples[index*3+1], samples[index*3+2]) = map(float, tokens[3:6])
+                        indices.add(index)
+
+        if samples == [] or indices != set(range(len(samples)/3)):
+            print( "%s does not hold the %s values of a version 1 spi3d file" % (
+                lutPath, ' x '.join(map(str, resolution))) )
+            return False
 
         #
         # Create ProcessNodes
-- 
2.43.0


From e059ff874b7d9416d05b75fd3499d97526551d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 58/67] fix: infinite entries of a 1D table turn the entries
 next to them into NaN

---
 python/aces/clf/Array.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 573edba..afd7f38 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -437,8 +437,11 @@ class Array:
             value1 = self.lookup1D(index1, channel)
             value2 = self.lookup1D(index2, channel)
 
-            # Interpolate
-            result = (1-ratio)*value1 + ratio*value2
+            # Interpolate. An exact match doesn't depend on its neighbor, which may be infinite
+            if ratio == 0.0:
+                result = value1
+            else:
+                result = (1-ratio)*value1 + ratio*value2
 
             '''
             print( "lookup1DHalfDomain - normal numbers" )
@@ -495,7 +498,11 @@ class Array:
             value1 = self.lookup1D(indexLow, channel)
             value2 = self.lookup1D(indexHigh, channel)
 
-            result = (1-interp)*value1 + interp*value2
+            # An exact match doesn't depend on its neighbor, and may be infinite itself
+            if interp == 0.0:
+                result = value1
+            else:
+                result = (1-interp)*value1 + interp*value2
 
         return result
     # lookup1DLinear
-- 
2.43.0


From 91af0787d317604a495a01e8b203bcc66203eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 59/67] fix: infinite entries of a 3D table turn the grid
 points next to them into NaN

---
 python/aces/clf/Array.py  | 7 +++++++
 python/aces/clf/Common.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index afd7f38..32060ac 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -644,6 +644,13 @@ class Array:
         enclosingCubeColors[6] = self.lookup3D([indexR + 1, indexG + 1, indexB    ])
         enclosingCubeColors[7] = self.lookup3D([indexR + 1, indexG + 1, indexB + 1])
 
+        # Corners without any weight shouldn't matter, even if they are infinite
+        for corner in range(8):
+            if ((interpR == 0.0 and corner & 4) or
+                (interpG == 0.0 and corner & 2) or
+                (interpB == 0.0 and corner & 1)):
+                enclosingCubeColors[corner] = [0.0, 0.0, 0.0]
+
         rgbaBuffer = [0.0, 0.0, 0.0]
 
         # Rebind for consistency with Truelight paper
diff --git a/python/aces/clf/Common.py b/python/aces/clf/Common.py
index 1e270d8..d40e833 100644
--- a/python/aces/clf/Common.py
+++ b/python/aces/clf/Common.py
@@ -81,6 +81,10 @@ def clamp(value, minValue=0.0, maxValue=1.0):
 # clamp
 
 def mix(value1, value2, mixAmount):
+    # Without any of the second value the first is exact, even if either is infinite
+    if mixAmount == 0.0:
+        return list(value1)
+
     outValue = [0] * len(value1)
     for i in range(len(value1)):
         outValue[i] = (1.0 - mixAmount)*value1[i] + mixAmount*value2[i]
-- 
2.43.0


From b00855bc1d51877c122bba8537b1581ef20572de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:36 +0000
Subject: [PATCH 60/67] fix: a half-domain 1D LUT with cubic interpolation is
 indexed like a uniform table

---
 python/aces/clf/LUT1D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 6a901c6..dd4ecef 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -201,14 +201,14 @@ class LUT1D(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                 # Run through LUT
-                # Use Cubic interpolation
-                if interpolation == 'cubic':
-                    outValue[i] = self._array.lookup1DCubic(outValue[i], i)
-
                 # Use halfDomain lookup and interpolation
-                elif halfDomain:
+                if halfDomain:
                     outValue[i] = self._array.lookup1DHalfDomain(outValue[i], i, interpolate=True)
 
+                # Use Cubic interpolation
+                elif interpolation == 'cubic':
+                    outValue[i] = self._array.lookup1DCubic(outValue[i], i)
+
                 # Linear interpolation is the default
                 #elif interpolation == 'linear':
                 else:
-- 
2.43.0


From f67f8215751bdebd0309fda1f95cc114d7513adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:36 +0000
Subject: [PATCH 61/67] fix: monitor curves without an offset raise
 ZeroDivisionError

---
 python/aces/clf/ExtensionGamma.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 9320f93..84975d1 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -158,6 +158,13 @@ class Gamma(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
+                    # Without an offset there is no linear segment, and without a gamma no curve
+                    if offset[i] == 0.0:
+                        if gamma[i] != 1.0:
+                            outValue[i] = pow(max(0.0, outValue[i]), gamma[i])
+                        outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
+                        continue
+
                     pivot = (offset[i]/(gamma[i]-1))
                     if( outValue[i] <= pivot ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
@@ -170,6 +177,13 @@ class Gamma(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
+                    # Without an offset there is no linear segment, and without a gamma no curve
+                    if offset[i] == 0.0:
+                        if gamma[i] != 1.0:
+                            outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
+                        outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
+                        continue
+
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
                     if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
-- 
2.43.0


From 88e59cccba4846f064516bf003c914b9983e256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 62/67] fix: a LUT3D without one of the two known
 interpolations ignores its table

---
 python/aces/clf/LUT3D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 33c19a1..4f8d6e5 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -185,12 +185,12 @@ class LUT3D(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
             # Run color through LUT
-            # trilinear interpolation
-            if interpolation == 'trilinear':
+            # trilinear interpolation is the default
+            if interpolation != 'tetrahedral':
                 outValue[0:3] = self._array.lookup3DTrilinear(outValue)
 
             # tetrahedral interpolation
-            elif interpolation == 'tetrahedral':
+            else:
                 outValue[0:3] = self._array.lookup3DTetrahedral(outValue)
 
             # Bit Depth conversion for output is ignored for LUTs
-- 
2.43.0


From 1f74501c3a0ff097cee2ed188a5156a078b656ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 63/67] fix: reading the inverse of spi3d and csp files gives
 the forward LUT

---
 python/aces/lutFormats/LutCSP.py | 8 ++++++--
 python/aces/lutFormats/LutSPI.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 2554609..b9662e6 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -252,10 +252,14 @@ class LutFormatCSP(LutFormat.LutFormat):
         return prelutpns
 
     # XXX
-    # Need to warn user about the lack of an inverse for 3D LUTs
-    # Or implement one. That would be slow in Python (or C, or OpenCL) though
+    # There is no inverse for 3D LUTs
+    # It would be slow in Python (or C, or OpenCL)
     @staticmethod
     def readCSP(lutPath, inverse=False, interpolation='linear'):
+        # The forward LUT is no substitute for the inverse
+        if inverse:
+            raise NotImplementedError("No inverse is available for %s" % lutPath)
+
         with open(lutPath) as f:
             # Blank lines carry no information
             lines = [line for line in f.read().splitlines() if line.strip()]
diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 10418a8..42303c2 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -236,10 +236,14 @@ class LutFormatSPI(LutFormat.LutFormat):
         return lutpns
 
     # XXX
-    # Need to warn user about the lack of an inverse for 3D LUTs
-    # Or implement one. That would be slow in Python (or C, or OpenCL) though
+    # There is no inverse for 3D LUTs
+    # It would be slow in Python (or C, or OpenCL)
     @staticmethod
     def readSPI3D(lutPath, inverse=False, interpolation='linear'):
+        # The forward LUT is no substitute for the inverse
+        if inverse:
+            raise NotImplementedError("No inverse is available for %s" % lutPath)
+
         with open(lutPath) as f:
             lines = f.read().splitlines()
 
-- 
2.43.0


From 89686f6d81c5ea4aec93b592f7cc6c0b86e5ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 64/67] fix: half domain lookup of the nearest entry used an
 undefined name

---
 python/aces/clf/Array.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 32060ac..c770885 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -345,10 +345,8 @@ class Array:
 
         # Input half-float values are treated as 16 bit unsigned integers
         # Those integers are the index into the LUT
-        if not interpolate:
-            index = halfToUInt16(position)
-            value = self.lookup1D(index, channel)
-            result = value
+        index = halfToUInt16(position)
+        result = self.lookup1D(index, channel)
 
         return result
 
-- 
2.43.0


From ac3f4daae69cd39a6648ffc68e5d349de751f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 65/67] fix: formats that can not be read raised errors about
 undefined names instead of saying so

---
 python/aces/lutFormats/LutCTL.py    | 11 -----------
 python/aces/lutFormats/LutFormat.py |  2 +-
 2 files changed, 1 insertion(+), 12 deletions(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 1358d85..2403646 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -87,17 +87,6 @@ class LutFormatCTL(LutFormat.LutFormat):
         LutFormat.LutFormat.__init__(self)
     # __init__
 
-    @classmethod
-    def read(cls,
-             lutPath, 
-             inverse=False, 
-             interpolation='linear',
-             inversesUseIndexMaps=True, 
-             inversesUseHalfDomain=True):
-        return cls.readCTL(lutPath,
-            inverse, 
-            interpolation)
-
     @classmethod
     def write1D(cls,
                 lutPath,
diff --git a/python/aces/lutFormats/LutFormat.py b/python/aces/lutFormats/LutFormat.py
index 85d5c85..613943e 100644
--- a/python/aces/lutFormats/LutFormat.py
+++ b/python/aces/lutFormats/LutFormat.py
@@ -146,7 +146,7 @@ class LutFormat():
              interpolation='linear',
              inversesUseIndexMaps=True, 
              inversesUseHalfDomain=True):
-        print( "Format %s can not be read" % self.formatType )
+        print( "Format %s can not be read" % cls.formatType )
         return False
 
     @classmethod
-- 
2.43.0


From adeec0357da58a6894e67e49dbde845e887386ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 66/67] fix: an element named like the ProcessNode base class
 raised a TypeError instead of being unknown

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 python/aces/clf/ProcessList.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 7f49324..c799a2e 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -103,7 +103,8 @@ class Group(ProcessNode):
         elementClass = ProcessList.getClass(elementType)
         #print( elementType, elementClass )
 
-        if elementClass != None:
+        # The base class is registered, but isn't an element
+        if elementClass != None and elementType != "ProcessNode":
             element = elementClass()
 
             processNodeClass = ProcessList.getClass("ProcessNode")
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 9b1dd82..009eaf5 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -227,7 +227,8 @@ class ProcessList:
             elementClass = self.getClass(elementType)
             #print( child.tag, elementType, elementClass )
 
-            if elementClass != None:
+            # The base class is registered, but isn't an element
+            if elementClass != None and elementType != "ProcessNode":
                 # Instantiate the class and read XML data
                 element = elementClass()
 
-- 
2.43.0


From 8753d632ff4fc1fc75ac2240200bb9f582186244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:40 +0000
Subject: [PATCH 67/67] fix: a node without its own processing raised a
 NameError instead of passing values through

---
 python/aces/clf/ProcessNode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index cb04869..032b72c 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -310,7 +310,7 @@ class ProcessNode():
     def process(self, values, stride=0, verbose=False):
         if verbose:
             print( "ProcessNode::process - no op")
-        return value
+        return values
 
     # Setters and getters
     def setInBitDepth(self, name):
-- 
2.43.0


From f30b5474a88705329d75194fa56301c7b64b4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 001/174] fix: RecurrentNetwork accepts the forget keyword it
 looks for

---
 pybrain/structure/networks/recurrent.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index c814b03..5cb0b9a 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -148,8 +148,5 @@ class RecurrentNetwork(RecurrentNetworkComponent, Network):
 
     def __init__(self, *args, **kwargs):
         Network.__init__(self, *args, **kwargs)
-        if 'forget' in kwargs:
-            forget = kwargs['forget']
-        else:
-            forget = False
+        forget = kwargs.pop('forget', False)
         RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)
-- 
2.43.0


From b80cf51900673f39330d4055306c276a1d07f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 002/174] fix: PermutationConnection can be rebuilt from XML

---
 pybrain/structure/connections/permutation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 7dda244..ed226a6 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -13,6 +13,9 @@ from pybrain.utilities import permute
 class PermutationConnection(Connection):
     """Connection that permutes the input by a given permutation."""
 
+    permutation = None
+    blocksize = None
+
     def __init__(self, inmod, outmod, permutation, blocksize, *args, **kwargs):
         Connection.__init__(self, inmod, outmod, *args, **kwargs)
         if self.indim != self.outdim:
@@ -23,6 +26,8 @@ class PermutationConnection(Connection):
                 "Permutation has wrong size: should be %i but is %i." %(
                 (self.indim // blocksize), len(permutation)))
 
+        # arguments for xml
+        self.setArgs(permutation=[int(i) for i in permutation], blocksize=blocksize)
         self.permutation = array(permutation)
         self.invpermutation = permute(list(range(len(permutation))), permutation)
         self.blocksize = blocksize
-- 
2.43.0


From b3c10d2f253ffcac09af5c6eea378cf3dfff237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 003/174] fix: feed-forward networks nested in recurrent ones
 use the current time step

---
 pybrain/structure/networks/feedforward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/feedforward.py b/pybrain/structure/networks/feedforward.py
index c833af2..eeeb41f 100644
--- a/pybrain/structure/networks/feedforward.py
+++ b/pybrain/structure/networks/feedforward.py
@@ -29,7 +29,7 @@ class FeedForwardNetworkComponent(object):
         for m in self.modulesSorted:
             m.forward()
             for c in self.connections[m]:
-                c.forward()
+                c.forward(offset, offset)
 
         index = 0
         for m in self.outmodules:
@@ -46,7 +46,7 @@ class FeedForwardNetworkComponent(object):
 
         for m in reversed(self.modulesSorted):
             for c in self.connections[m]:
-                c.backward()
+                c.backward(offset, offset)
             m.backward()
 
         index = 0
-- 
2.43.0


From 055735fa0edfaaffb4fb6502a8960c4ee765ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 004/174] fix: shifting a nested network shifts its modules too

---
 pybrain/structure/networks/network.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index d5c4d2f..53906e2 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -149,6 +149,13 @@ class Network(Module, ParameterContainer):
         for m in self.modules:
             m.reset()
 
+    def shift(self, items):
+        """Shift the buffers of the network and those of all its modules."""
+        Module.shift(self, items)
+        for m in self.modules:
+            m.shift(items)
+            m.offset = self.offset
+
     def _setParameters(self, p, owner=None):
         """ put slices of this array back into the modules """
         ParameterContainer._setParameters(self, p, owner)
-- 
2.43.0


From c063d8c38051ad2374009135464f69d5b75c28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 005/174] fix: saving a network replaces the XML file
 atomically

---
 pybrain/tools/customxml/handling.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/customxml/handling.py b/pybrain/tools/customxml/handling.py
index 237cbad..11eaa47 100644
--- a/pybrain/tools/customxml/handling.py
+++ b/pybrain/tools/customxml/handling.py
@@ -3,6 +3,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 from xml.dom.minidom import parse, getDOMImplementation
 from pybrain.utilities import fListToString
 from scipy import zeros
+import os
 import string
 
 class XMLHandling:
@@ -26,9 +27,17 @@ class XMLHandling:
         self.root = self.dom.documentElement
 
     def save(self):
-        file = open(self.filename, 'w')
-        file.write(self.dom.toprettyxml())
-        file.close()
+        # write to a temporary file and rename it, so that neither a failing
+        # disk nor a crash can destroy what the file contained before
+        tmpname = self.filename + '.tmp'
+        try:
+            with open(tmpname, 'w') as file:
+                file.write(self.dom.toprettyxml())
+            os.replace(tmpname, self.filename)
+        except Exception:
+            if os.path.exists(tmpname):
+                os.remove(tmpname)
+            raise
 
     def readAttrDict(self, node, transform = None):
         """ read a dictionnary of attributes
-- 
2.43.0


From b50b219aab15ae73a604795d4679d1ad091cb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 006/174] fix: module names are resolved within the network
 being read

---
 pybrain/tools/customxml/networkreader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 9462a51..af69feb 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -45,6 +45,11 @@ class NetworkReader(XMLHandling):
         n = nclass(**argdict)
         n.name = node.getAttribute('name')
 
+        # names are unique within one network only, so a nested network
+        # (or another one in the same file) must not see or replace ours
+        outer = self.modules, self.mothers
+        self.modules, self.mothers = {}, {}
+
         for mnode in self.getChildrenOf(self.getChild(node, 'Modules')):
             m, inmodule, outmodule = self.readModule(mnode)
             if inmodule:
@@ -67,6 +72,7 @@ class NetworkReader(XMLHandling):
             else:
                 n.addConnection(c)
 
+        self.modules, self.mothers = outer
         n.sortModules()
         return n
 
-- 
2.43.0


From cd6330f154428c384edceaa40edfe250044c484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 007/174] fix: sequence boundaries of datasets are integers

---
 pybrain/datasets/sequential.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 03b2144..0b04d93 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -46,7 +46,7 @@ class SequentialDataSet(SupervisedDataSet):
         if len(seq) < index + 1:
             # sequence index beyond number of sequences. raise exception
             raise IndexError('sequence does not exist.')
-        return self.getField(field)[seq[index]:seq[index + 1]]
+        return self.getField(field)[int(seq[index]):int(seq[index + 1])]
 
     def getSequence(self, index):
         """Returns the sequence given by `index`.
@@ -80,7 +80,7 @@ class SequentialDataSet(SupervisedDataSet):
     def gotoSequence(self, index):
         """Move the internal marker to the beginning of sequence `index`."""
         try:
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
         except IndexError:
             raise IndexError('sequence does not exist')
 
@@ -114,7 +114,7 @@ class SequentialDataSet(SupervisedDataSet):
             # sequence doesn't exist, raise exception
             raise IndexError('sequence does not exist.')
         sequences = ravel(self.getField('sequence_index'))
-        seqstart = sequences[index]
+        seqstart = int(sequences[index])
         if index == self.getNumSequences() - 1:
             # last sequence is going to be removed
             lastSeqDeleted = True
@@ -122,7 +122,7 @@ class SequentialDataSet(SupervisedDataSet):
         else:
             lastSeqDeleted = False
             # sequence to remove is not last one (sequence_index exists)
-            seqend = sequences[index + 1]
+            seqend = int(sequences[index + 1])
 
         # cut out data from all fields
         for label in self.link:
@@ -154,7 +154,7 @@ class SequentialDataSet(SupervisedDataSet):
             # move sequence marker to the new sequence at position 'index'
             self.currentSeq = index
             # move sample marker to beginning of sequence at position 'index'
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
 
 
     def clear(self):
-- 
2.43.0


From 3d30eb45fba16c56b82e68f926433343b60a5de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 008/174] fix: a sample that cannot be appended leaves the
 dataset as it was

---
 pybrain/datasets/dataset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 6a11890..1c96fc7 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -212,8 +212,14 @@ class DataSet(Serializable):
     def appendLinked(self, *args):
         """Add rows to all linked fields at once."""
         assert len(args) == len(self.link)
-        for i, l in enumerate(self.link):
-            self._appendUnlinked(l, args[i])
+        marks = [(l, self.endmarker[l]) for l in self.link]
+        try:
+            for i, l in enumerate(self.link):
+                self._appendUnlinked(l, args[i])
+        except BaseException:
+            # a row that cannot be added to one field is added to none
+            self.endmarker.update(marks)
+            raise
 
     def getLinked(self, index=None):
         """Access the dataset randomly or sequential.
-- 
2.43.0


From a65c6c64cb0f7624d866dc75b740eb6fdc47087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 009/174] fix: converting a field does not expose its unused
 rows

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 1c96fc7..d9e11f6 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -267,7 +267,7 @@ class DataSet(Serializable):
     def convertField(self, label, newtype):
         """Convert the given field to a different data type."""
         try:
-            self.setField(label, self.data[label].astype(newtype))
+            self.setField(label, self.data[label][:self.endmarker[label]].astype(newtype))
         except KeyError:
             raise KeyError('convertField: dataset field %s not found.' % label)
 
-- 
2.43.0


From 6a31e0b878590579aa5ca037c7ad9463724c36f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 010/174] fix: length of an unlinked dataset is that of its
 longest field

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index d9e11f6..fc07efe 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -160,7 +160,7 @@ class DataSet(Serializable):
         return the length of the longest field."""
         if self.link == []:
             try:
-                length = self.endmarker[max(self.endmarker)]
+                length = max(self.endmarker.values())
             except ValueError:
                 return 0
             return length
-- 
2.43.0


From 3e6aef37ae07af393e0127f1fc4db272d74ab98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 011/174] fix: random batches come in random order

---
 pybrain/datasets/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index fc07efe..297a975 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -365,7 +365,8 @@ class DataSet(Serializable):
 
     def randomBatches(self, label, n):
         """Like .batches(), but the order is random."""
-        permutation = random.shuffle(list(range(len(self))))
+        permutation = list(range((len(self) + n - 1) // n))
+        random.shuffle(permutation)
         return self.batches(label, n, permutation)
 
     def replaceNansByMeans(self):
-- 
2.43.0


From 526c9104e0635007218ca247e81d1d0dc5e02881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 012/174] fix: an importance vector can be given for a sample

---
 pybrain/datasets/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/importance.py b/pybrain/datasets/importance.py
index bd8235f..ecb5743 100644
--- a/pybrain/datasets/importance.py
+++ b/pybrain/datasets/importance.py
@@ -28,7 +28,7 @@ class ImportanceDataSet(SequentialDataSet):
             :key importance: the importance of the sample. If left None, the
                  importance will be set to 1.0
         """
-        if importance == None:
+        if importance is None:
             importance = ones(len(target))
         self.appendLinked(inp, target, importance)
 
-- 
2.43.0


From f37396c8896c3cbe4df1bd94835de8aef45172d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 013/174] fix: 1-of-k conversion uses a data type numpy knows

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index c2b52e5..81b7f16 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -139,7 +139,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='Int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From e14c5922c4457c1d92d496aca70d9963eb6ea45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 014/174] fix: plain datasets can be pickled, and copies keep
 their vector format

---
 pybrain/datasets/dataset.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 297a975..00c9e76 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -317,17 +317,21 @@ class DataSet(Serializable):
         Serializable.save_pickle(self, flo, protocol)
 
     def __reduce__(self):
-        def creator():
-            obj = self.__class__()
-            obj.vectorformat = self.vectorformat
-            return obj
         args = tuple()
         state = {
             'data': self.data,
             'link': self.link,
             'endmarker': self.endmarker,
+            'vectorformat': self.vectorformat,
         }
-        return creator, args, state, iter([]), iter({})
+        return self.__class__, args, state, iter([]), iter({})
+
+    def __setstate__(self, state):
+        state = dict(state)
+        vectorformat = state.pop('vectorformat', None)
+        self.__dict__.update(state)
+        if vectorformat is not None:
+            self.vectorformat = vectorformat
 
     def copy(self):
         """Return a deep copy."""
-- 
2.43.0


From da14d1e3d742e844e7b1acfce7a4cc71476495c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 015/174] fix: a failed save does not destroy the file that was
 saved before

---
 pybrain/utilities.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 21ac18f..5696ae9 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -174,8 +174,17 @@ class Serializable(object):
         if format is None:
             # try to derive protocol from file extension
             format = formatFromExtension(filename)
-        with open(filename, 'wb') as fp:
-            self.saveToFileLike(fp, format, **kwargs)
+        # write to a temporary file and rename it, so that a failing save does
+        # not destroy what the file contained before
+        tmpname = filename + '.tmp'
+        try:
+            with open(tmpname, 'wb') as fp:
+                self.saveToFileLike(fp, format, **kwargs)
+            os.replace(tmpname, filename)
+        except Exception:
+            if os.path.exists(tmpname):
+                os.remove(tmpname)
+            raise
 
     @classmethod
     def loadFromFile(cls, filename, format=None):
-- 
2.43.0


From dd6fea74bcd13c6ffb0b69ef6341e90e783a399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 016/174] fix: dictionary files are binary and replaced
 atomically

---
 pybrain/tools/filehandling.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pybrain/tools/filehandling.py b/pybrain/tools/filehandling.py
index 2c6be9b..6f94db6 100644
--- a/pybrain/tools/filehandling.py
+++ b/pybrain/tools/filehandling.py
@@ -42,9 +42,11 @@ def selectSome(strings, requiredsubstrings=[], requireAll=True):
 def pickleDumpDict(name, d):
     """ pickle-dump a variable into a file """
     try:
-        f = open(name + '.pickle', 'w')
-        pickle.dump(d, f)
-        f.close()
+        # write to a temporary file and rename it, so that a failing save does
+        # not destroy what the file contained before
+        with open(name + '.pickle.tmp', 'wb') as f:
+            pickle.dump(d, f)
+        os.replace(name + '.pickle.tmp', name + '.pickle')
         return True
     except Exception as e:
         print(('Error writing into', name, ':', str(e)))
@@ -54,9 +56,8 @@ def pickleDumpDict(name, d):
 def pickleReadDict(name):
     """ pickle-read a (default: dictionnary) variable from a file """
     try:
-        f = open(name + '.pickle')
-        val = pickle.load(f)
-        f.close()
+        with open(name + '.pickle', 'rb') as f:
+            val = pickle.load(f)
     except Exception as e:
         print(('Nothing read from', name, ':', str(e)))
         val = {}
-- 
2.43.0


From d561f0115d72fff624671f2ddfe8c3f0cfa9b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 017/174] fix: adding to a dictionary file never drops what it
 cannot read

---
 pybrain/tools/filehandling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/filehandling.py b/pybrain/tools/filehandling.py
index 6f94db6..8c3209a 100644
--- a/pybrain/tools/filehandling.py
+++ b/pybrain/tools/filehandling.py
@@ -67,12 +67,18 @@ def pickleReadDict(name):
 def addToDictFile(name, key, data, verbose=False):
     if verbose:
         print(('.',))
-    d = pickleReadDict(name)
+    if os.path.exists(name + '.pickle'):
+        # a file that cannot be read must not be overwritten: fail instead
+        with open(name + '.pickle', 'rb') as f:
+            d = pickle.load(f)
+    else:
+        d = {}
     if key not in d:
         d[key] = []
     d[key].append(data)
-    pickleDumpDict(name, d)
+    success = pickleDumpDict(name, d)
     if verbose:
         print(':')
+    return success
 
 
-- 
2.43.0


From ef41654e329c8eac4ccd949c18e5ce03d46b510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 018/174] fix: copied networks share their derivatives with
 their modules

---
 pybrain/structure/networks/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index 53906e2..c0a2f38 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -276,6 +276,7 @@ class Network(Module, ParameterContainer):
         cp = Evolvable.copy(self)
         if self.paramdim > 0:
             cp._setParameters(self.params.copy())
+            cp._setDerivatives(self.derivs.copy())
         return cp
 
     def convertToFastNetwork(self):
-- 
2.43.0


From b8eb639039dd116051ee24de4555f708676d34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 019/174] fix: unpickled networks share their parameters with
 their modules

---
 pybrain/structure/networks/network.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index c0a2f38..95ede45 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -279,6 +279,20 @@ class Network(Module, ParameterContainer):
             cp._setDerivatives(self.derivs.copy())
         return cp
 
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        # The modules' parameters and derivatives are slices of the network's
+        # arrays, but come out of a pickle as arrays of their own: share them
+        # again (unless pickling started somewhere inside the network, in which
+        # case some parts are not there yet).
+        if self.sorted and self.paramdim > 0 and self.owner is None:
+            parts = chain(self.modules, self.motherconnections,
+                          getattr(self, 'recurrentConns', []),
+                          *self.connections.values())
+            if all(vars(p) for p in parts):
+                self._setParameters(self.params)
+                self._setDerivatives(self.derivs)
+
     def convertToFastNetwork(self):
         """ Attempt to transform the network into a fast network. If fast networks are not available,
         or the network cannot be converted, it returns None. """
-- 
2.43.0


From 7db2d37e61212cd46605f90fb13fc2efc3685eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 020/174] fix: a refused sequence removal does not leave the
 class field linked

---
 pybrain/datasets/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 81b7f16..6abac5e 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -278,8 +278,10 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         """Remove sequence (including class field) from the dataset."""
         self.assignClasses()
         self.linkFields(['input', 'target', 'class'])
-        SequentialDataSet.removeSequence(self, index)
-        self.unlinkFields(['class'])
+        try:
+            SequentialDataSet.removeSequence(self, index)
+        finally:
+            self.unlinkFields(['class'])
 
     def save_netcdf(self, flo, **kwargs):
         """Save the current dataset to the given file as a netCDF dataset to be
-- 
2.43.0


From b1ea505ecaa219d2392e5db65780524753cd9f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 021/174] fix: clearing a classification dataset forgets the
 classes of its samples

---
 pybrain/datasets/classification.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 6abac5e..b10b4df 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -97,6 +97,11 @@ class ClassificationDataSet(SupervisedDataSet):
             result.assignClasses()
         return result
 
+    def clear(self, unlinked=False):
+        """Clear the dataset, including the classes of the samples."""
+        SupervisedDataSet.clear(self, unlinked)
+        self.setField('class', zeros((0, 1)))
+
     def assignClasses(self):
         """Ensure that the class field is properly defined and nClasses is set.
         """
-- 
2.43.0


From 2fa3f88481424a471ac34ed13ad456948a499771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 022/174] fix: a stratified split does not drop the last
 sequence

---
 pybrain/datasets/classification.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index b10b4df..3f0a054 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -240,8 +240,7 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         It is assumed that the last target for each class is the class of the
         sequence. Also mind that the data will be sorted by class in the
         resulting data sets."""
-        lastidx = ravel(self['sequence_index'][1:] - 1).astype(int)
-        classes = ravel(self['class'][lastidx])
+        classes = ravel(self.getSequenceClass())
         trnDs = self.copy()
         trnDs.clear()
         tstDs = trnDs.copy()
-- 
2.43.0


From 29785350b97cf2a81bc0140476bc00dbe1be64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 023/174] fix: agents accept observations and actions of more
 than one dimension

---
 pybrain/rl/agents/logging.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/agents/logging.py b/pybrain/rl/agents/logging.py
index c13e356..745b7ba 100644
--- a/pybrain/rl/agents/logging.py
+++ b/pybrain/rl/agents/logging.py
@@ -41,9 +41,9 @@ class LoggingAgent(Agent):
 
     def getAction(self):
         """Step 2: store the action in a temporary variable until reward is given. """
-        assert self.lastobs != None
-        assert self.lastaction == None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is None
+        assert self.lastreward is None
 
         # implement getAction in subclass and set self.lastaction
 
@@ -51,9 +51,9 @@ class LoggingAgent(Agent):
     def giveReward(self, r):
         """Step 3: store observation, action and reward in the history dataset. """
         # step 3: assume that state and action have been set
-        assert self.lastobs != None
-        assert self.lastaction != None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is not None
+        assert self.lastreward is None
 
         self.lastreward = r
 
-- 
2.43.0


From d0126a199d7de6fe950009a305334383196b2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 024/174] fix: scaled observations are clipped when clipping is
 on

---
 pybrain/rl/environments/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/task.py b/pybrain/rl/environments/task.py
index e771044..261c0ee 100644
--- a/pybrain/rl/environments/task.py
+++ b/pybrain/rl/environments/task.py
@@ -52,9 +52,10 @@ class Task(object):
             if not l:
                 result.append(s)
             else:
-                result.append((s - l[0]) / (l[1] - l[0]) * 2 - 1.0)
-        if self.clipping:
-            clip(result, -1, 1)
+                r = (s - l[0]) / (l[1] - l[0]) * 2 - 1.0
+                if self.clipping:
+                    r = clip(r, -1, 1)
+                result.append(r)
         return asarray(result)
 
     def denormalize(self, actors):
-- 
2.43.0


From 336a07fdb5eb326e9e999fddf0a0d394a0f890d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 025/174] fix: Q(lambda) does not truncate rewards to integers

---
 pybrain/rl/learners/valuebased/qlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index 1c6a507..ef4f510 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -35,7 +35,7 @@ class QLambda(ValueBasedLearner):
             laststate = int(states[i - 1])
             # action = int(actions[i])
             lastaction = int(actions[i - 1])
-            lastreward = int(rewards[i - 1])
+            lastreward = float(rewards[i - 1])
 
             qvalue = self.module.getValue(laststate, lastaction)
             maxnext = self.module.getValue(state, self.module.getMaxAction(state))
-- 
2.43.0


From 794a15de14611e0c896fa37d7d8742d5a3f2a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 026/174] fix: policy gradient learners index sequences with
 integers

---
 pybrain/rl/learners/directsearch/enac.py      | 2 +-
 pybrain/rl/learners/directsearch/reinforce.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/enac.py b/pybrain/rl/learners/directsearch/enac.py
index 397bd9b..7ae1618 100644
--- a/pybrain/rl/learners/directsearch/enac.py
+++ b/pybrain/rl/learners/directsearch/enac.py
@@ -24,7 +24,7 @@ class ENAC(PolicyGradientLearner):
         print((self.dataset.getNumSequences()))
         for n in range(self.dataset.getNumSequences()):
             _state, _action, reward = self.dataset.getSequence(n)
-            seqidx = ravel(self.dataset['sequence_index'])
+            seqidx = ravel(self.dataset['sequence_index']).astype(int)
             if n == self.dataset.getNumSequences() - 1:
                 # last sequence until end of dataset
                 loglh = self.loglh['loglh'][seqidx[n]:, :]
diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 5f4217f..a0020a6 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -17,7 +17,7 @@ class Reinforce(PolicyGradientLearner):
 
         # initialize variables
         returns = self.dataset.getSumOverSequences('reward')
-        seqidx = ravel(self.dataset['sequence_index'])
+        seqidx = ravel(self.dataset['sequence_index']).astype(int)
 
         # sum of sequences up to n-1
         loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
-- 
2.43.0


From cccd7f411a8e9aee0c3b69442f23fcd3f3b682ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 027/174] fix: action values can be asked for the observations
 agents receive

---
 pybrain/rl/learners/valuebased/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/interface.py b/pybrain/rl/learners/valuebased/interface.py
index c4a6ae1..9c4b657 100644
--- a/pybrain/rl/learners/valuebased/interface.py
+++ b/pybrain/rl/learners/valuebased/interface.py
@@ -56,7 +56,7 @@ class ActionValueTable(Table, ActionValueInterface):
         return action
 
     def getActionValues(self, state):
-        return self.params.reshape(self.numRows, self.numColumns)[state, :].flatten()
+        return self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()
 
     def initialize(self, value=0.0):
         """ Initialize the whole table with the given value. """
-- 
2.43.0


From ad464f1aaad5524d2aec330749818830c16577f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 028/174] fix: agents can start a new episode after one without
 completed interactions

---
 pybrain/rl/agents/learning.py |  3 +--
 pybrain/rl/agents/linearfa.py |  3 +--
 pybrain/rl/agents/logging.py  | 12 +++++++++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/agents/learning.py b/pybrain/rl/agents/learning.py
index 06c1e0b..9aa61db 100644
--- a/pybrain/rl/agents/learning.py
+++ b/pybrain/rl/agents/learning.py
@@ -60,8 +60,7 @@ class LearningAgent(LoggingAgent):
         # reset the module when a new episode starts.
         self.module.reset()
         
-        if self.logging:
-            self.history.newSequence()
+        self._startSequence()
 
         # inform learner about the start of a new episode
         if self.learning:
diff --git a/pybrain/rl/agents/linearfa.py b/pybrain/rl/agents/linearfa.py
index 8a6024d..ee72cf5 100644
--- a/pybrain/rl/agents/linearfa.py
+++ b/pybrain/rl/agents/linearfa.py
@@ -63,8 +63,7 @@ class LinearFA_Agent(LoggingAgent):
         
     def newEpisode(self):
         """ Indicate the beginning of a new episode in the training cycle. """
-        if self.logging:
-            self.history.newSequence()
+        self._startSequence()
         if self.learning and not self.learner.batchMode:
             self.learner.newEpisode()
         else:
diff --git a/pybrain/rl/agents/logging.py b/pybrain/rl/agents/logging.py
index 745b7ba..042f879 100644
--- a/pybrain/rl/agents/logging.py
+++ b/pybrain/rl/agents/logging.py
@@ -2,6 +2,7 @@ __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
 from pybrain.rl.agents.agent import Agent
 from pybrain.datasets import ReinforcementDataSet
+from pybrain.datasets.sequential import EmptySequenceError
 
 
 class LoggingAgent(Agent):
@@ -64,8 +65,17 @@ class LoggingAgent(Agent):
 
     def newEpisode(self):
         """ Indicate the beginning of a new episode in the training cycle. """
+        self._startSequence()
+
+
+    def _startSequence(self):
+        """ Start a new sequence in the history. An episode without any completed
+            interaction (e.g. because its first one failed) is not recorded. """
         if self.logging:
-            self.history.newSequence()
+            try:
+                self.history.newSequence()
+            except EmptySequenceError:
+                pass
 
 
     def reset(self):
-- 
2.43.0


From 2fbb05df711f11baf975d05ce09d7d8846c43c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 029/174] fix: online learning goes on after an interaction
 that failed

---
 pybrain/rl/agents/linearfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/agents/linearfa.py b/pybrain/rl/agents/linearfa.py
index ee72cf5..bd34f96 100644
--- a/pybrain/rl/agents/linearfa.py
+++ b/pybrain/rl/agents/linearfa.py
@@ -46,7 +46,7 @@ class LinearFA_Agent(LoggingAgent):
         return array([self.lastaction])
         
     def integrateObservation(self, obs):
-        if self.learning and not self.learner.batchMode and self.lastobs is not None:
+        if self.learning and not self.learner.batchMode and self.lastreward is not None:
             if self.learner.passNextAction:
                 self._oaro = [self.lastobs, self.lastaction, self.lastreward, obs]
             else:
-- 
2.43.0


From 7499df77937b24e268f30d2daf2ce99c16dbc2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 030/174] fix: log likelihoods of policy gradient learners
 belong to a single action

---
 pybrain/rl/learners/directsearch/policygradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 5699179..901755f 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -121,7 +121,8 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         # forward pass of exploration
         explorative = ExploringLearner.explore(self, state, action)
 
-        # backward pass through network and store derivs
+        # backward pass through network and store derivs of this action alone
+        self.network.resetDerivatives()
         self.network.backward()
         self.loglh.appendLinked(self.network.derivs.copy())
 
-- 
2.43.0


From 214009e341c739e001b0ba4ebcc1a688cd5d1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 031/174] fix: policy gradients do not mix up actions after an
 interaction that failed

---
 pybrain/rl/learners/directsearch/policygradient.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 901755f..f75f787 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -105,6 +105,8 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         assert self.dataset != None
         assert self.module != None
 
+        self._dropUnfinished()
+
         # calculate the gradient with the specific function from subclass
         gradient = self.calculateGradient()
 
@@ -124,10 +126,17 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         # backward pass through network and store derivs of this action alone
         self.network.resetDerivatives()
         self.network.backward()
+        self._dropUnfinished()
         self.loglh.appendLinked(self.network.derivs.copy())
 
         return explorative
 
+    def _dropUnfinished(self):
+        """ Forget the log likelihoods of actions that never got into the
+            dataset because the interaction they belonged to failed. """
+        if self.dataset is not None and len(self.loglh) > len(self.dataset):
+            self.loglh.setField('loglh', self.loglh['loglh'][:len(self.dataset)])
+
     def reset(self):
         self.loglh.clear()
 
-- 
2.43.0


From 71cd8fb5d23fda8c997403f5d44d175cc34e4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 032/174] fix: policy gradient learners forget removed episodes
 entirely

---
 pybrain/rl/experiments/queued.py                   |  7 ++++++-
 pybrain/rl/learners/directsearch/policygradient.py | 10 ++++++++++
 pybrain/rl/learners/learner.py                     |  3 +++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/experiments/queued.py b/pybrain/rl/experiments/queued.py
index 1c743b3..380bbff 100644
--- a/pybrain/rl/experiments/queued.py
+++ b/pybrain/rl/experiments/queued.py
@@ -1,6 +1,7 @@
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
 from .episodic import EpisodicExperiment
+from pybrain.rl.learners.learner import DataSetLearner
 from scipy import arange
 
 
@@ -36,7 +37,11 @@ class QueuedExperiment(EpisodicExperiment):
         # let agent learn with full queue
         self.agent.learn()
         # remove oldest episode
-        self.agent.history.removeSequence(0)
+        learner = getattr(self.agent, 'learner', None)
+        if isinstance(learner, DataSetLearner) and learner.dataset is self.agent.history:
+            learner.removeSequence(0)
+        else:
+            self.agent.history.removeSequence(0)
         # execute one new episode
         self.doEpisodes(1)
 
diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index f75f787..043d6e3 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -1,5 +1,7 @@
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
+from scipy import r_
+
 from pybrain.rl.learners.directsearch.directsearch import DirectSearchLearner
 from pybrain.rl.learners.learner import DataSetLearner, ExploringLearner
 from pybrain.utilities import abstractMethod
@@ -137,6 +139,14 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         if self.dataset is not None and len(self.loglh) > len(self.dataset):
             self.loglh.setField('loglh', self.loglh['loglh'][:len(self.dataset)])
 
+    def removeSequence(self, index):
+        """ Remove the log likelihoods of a sequence along with the sequence. """
+        self._dropUnfinished()
+        seqidx = [int(i) for i in self.dataset['sequence_index']] + [len(self.dataset)]
+        loglh = self.loglh['loglh']
+        self.loglh.setField('loglh', r_[loglh[:seqidx[index]], loglh[seqidx[index + 1]:]])
+        DataSetLearner.removeSequence(self, index)
+
     def reset(self):
         self.loglh.clear()
 
diff --git a/pybrain/rl/learners/learner.py b/pybrain/rl/learners/learner.py
index a2f8e37..2d16703 100644
--- a/pybrain/rl/learners/learner.py
+++ b/pybrain/rl/learners/learner.py
@@ -66,3 +66,6 @@ class DataSetLearner(EpisodicLearner):
         self.dataset = dataset
         self.learnEpisodes(*args, **kwargs)
 
+    def removeSequence(self, index):
+        """ remove a sequence from the dataset, and whatever was recorded along with it """
+        self.dataset.removeSequence(index)
-- 
2.43.0


From 3cb4c1078f80b0f93cf5ef893274e3936d8aced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 033/174] fix: the wrong choice in a T-maze is punished however
 often the reward is asked for

---
 pybrain/rl/environments/mazes/tasks/tmaze.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/tmaze.py b/pybrain/rl/environments/mazes/tasks/tmaze.py
index 6dda091..12df0d6 100644
--- a/pybrain/rl/environments/mazes/tasks/tmaze.py
+++ b/pybrain/rl/environments/mazes/tasks/tmaze.py
@@ -38,6 +38,7 @@ class TMaze(MazeTask):
 
     def reset(self):
         MazeTask.reset(self)
+        self.badChoice = False
         goUp = choice([True, False])
         self.specialObs = goUp
         if goUp:
@@ -63,5 +64,7 @@ class TMaze(MazeTask):
             if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
                 # bad choice taken
                 self.env.perseus = self.env.goal
-                return self.bangPenalty
+                self.badChoice = True
+        if self.badChoice:
+            return self.bangPenalty
         return MazeTask.getReward(self)
-- 
2.43.0


From 24f3a4d4e6c84d70d0d9dfffd456870a375e26bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 034/174] fix: the tiger task adds up its rewards and takes
 encoded actions

---
 pybrain/rl/environments/mazes/tasks/tiger.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/tiger.py b/pybrain/rl/environments/mazes/tasks/tiger.py
index 6d0b056..cd061e4 100644
--- a/pybrain/rl/environments/mazes/tasks/tiger.py
+++ b/pybrain/rl/environments/mazes/tasks/tiger.py
@@ -1,8 +1,9 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import choice, random
-from scipy import array
+from scipy import array, ndarray
 
+from pybrain.utilities import drawIndex
 from .pomdp import POMDPTask
 
 
@@ -25,11 +26,14 @@ class TigerTask(POMDPTask):
     def reset(self):
         self.steps = 0
         self.cumreward = 0
+        self.samples = 0
         self.tigerLeft = choice([True, False])
         self.done = False
         self.nextReward = -1
 
     def performAction(self, action):
+        if type(action) == ndarray:
+            action = drawIndex(action, tolerant = True)
         self.steps += 1
         if action != self.Listen:
             self.done = True
@@ -38,6 +42,8 @@ class TigerTask(POMDPTask):
                 self.nextReward = -100
             else:
                 self.nextReward = 10
+        self.samples += 1
+        self.addReward()
 
     def getObservation(self):
         """ do we think we heard something on the left or on the right?  """
-- 
2.43.0


From c0ae4a8b96c7bd6155c34888299d2bde0852a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 035/174] fix: the shuttle task adds up its rewards and takes
 encoded actions

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index f13a6fe..5a4e9b0 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -1,8 +1,9 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from scipy import array, zeros
+from scipy import array, zeros, ndarray
 from random import random
 
+from pybrain.utilities import drawIndex
 from .maze import MazeTask
 from pybrain.rl.environments.mazes import PolarMaze
 
@@ -56,6 +57,8 @@ class ShuttleDocking(MazeTask):
         return res
 
     def performAction(self, action):
+        if type(action) == ndarray:
+            action = drawIndex(action, tolerant = True)
         self.steps += 1
         if action == self.TurnAround:
             self._turn()
@@ -80,6 +83,8 @@ class ShuttleDocking(MazeTask):
                 # close to station, back to station
                 if r < 0.7:
                     self._backup()
+        self.samples += 1
+        self.addReward()
 
     def _backup(self):
         self.env.performAction(PolarMaze.TurnAround)
-- 
2.43.0


From c649ef57670da1b5e6dd833d9e8172db748d7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 036/174] fix: the shuttle moves forward when told to

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index 5a4e9b0..6d99900 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -96,7 +96,7 @@ class ShuttleDocking(MazeTask):
 
     def _forward(self):
         old = self.env.perseus
-        self.env.performAction(PolarMaze.TurnAround)
+        self.env.performAction(PolarMaze.Forward)
         if self.env.perseus == self.env.goal or self.env.perseus == self.env.initPos[0]:
             self.env.perseus = old
             self.env.bang = True
-- 
2.43.0


From 3bf0bce48a75656d3a7e881c4c50d7a2850abf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 037/174] fix: positions in non-square MDP mazes are told apart

---
 pybrain/rl/environments/mazes/tasks/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/mdp.py b/pybrain/rl/environments/mazes/tasks/mdp.py
index 23a97ec..0d32a0f 100644
--- a/pybrain/rl/environments/mazes/tasks/mdp.py
+++ b/pybrain/rl/environments/mazes/tasks/mdp.py
@@ -28,7 +28,7 @@ class MDPMazeTask(Task):
         """ The agent receives its position in the maze, to make this a fully observable
             MDP problem.
         """
-        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[0] + self.env.perseus[1]])
+        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
         return obs
 
 
-- 
2.43.0


From 5c4d903177bd9956bbb149cc21641a1611169cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 038/174] fix: xor tasks produce binary observations

---
 pybrain/rl/environments/classic/xor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/classic/xor.py b/pybrain/rl/environments/classic/xor.py
index 98ef395..cfb551c 100644
--- a/pybrain/rl/environments/classic/xor.py
+++ b/pybrain/rl/environments/classic/xor.py
@@ -26,7 +26,7 @@ class XORTask(EpisodicTask):
         if self.randomorder:
             self.obs = array([randint(0,1), randint(0,1), 1])
         else:
-            self.obs = array([self._counter%2, (self._counter/2)%2, 1])    
+            self.obs = array([self._counter%2, (self._counter//2)%2, 1])    
         self._counter += 1    
         return self.obs
         
@@ -64,7 +64,7 @@ class XORChainTask(XORTask):
         self.state = 0
         
     def getObservation(self):
-        self.obs = array([self.state%2, (self.state/2)%2, 1])    
+        self.obs = array([self.state%2, (self.state//2)%2, 1])    
         return self.obs
         
     def performAction(self, action):
-- 
2.43.0


From ed7a94507121eb77b7b86b3bcdcc3e64ada3f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 039/174] fix: total reward of acrobot and mountain car starts
 from zero in every episode

---
 pybrain/rl/environments/classic/acrobot.py     | 1 +
 pybrain/rl/environments/classic/mountaincar.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pybrain/rl/environments/classic/acrobot.py b/pybrain/rl/environments/classic/acrobot.py
index d778884..217370f 100644
--- a/pybrain/rl/environments/classic/acrobot.py
+++ b/pybrain/rl/environments/classic/acrobot.py
@@ -70,6 +70,7 @@ class AcrobotTask(EpisodicTask):
             
     def reset(self):
         self.state = self.GetInitialState()
+        self.cumreward = 0
             
     def getReward(self):
         return self.r
diff --git a/pybrain/rl/environments/classic/mountaincar.py b/pybrain/rl/environments/classic/mountaincar.py
index 4f4cc2f..94c4f01 100644
--- a/pybrain/rl/environments/classic/mountaincar.py
+++ b/pybrain/rl/environments/classic/mountaincar.py
@@ -42,6 +42,7 @@ class MountainCar(EpisodicTask):
 
     def reset(self):
         self.state = self.GetInitialState()
+        self.cumreward = 0
     
     def getObservation(self):    
         #print(array([self.state[0], self.state[1] * 100, 1]))
-- 
2.43.0


From d3fabc19dee893db516e01c393b5f0cfe90eb847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 040/174] fix: noise does not lengthen the state of the simple
 environment

---
 pybrain/rl/environments/simple/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/simple/environment.py b/pybrain/rl/environments/simple/environment.py
index e0af3ac..79fad9f 100644
--- a/pybrain/rl/environments/simple/environment.py
+++ b/pybrain/rl/environments/simple/environment.py
@@ -28,7 +28,7 @@ class SimpleEnvironment(Environment):
     def update(self):
         self.state = [s + 0.1 * a for s, a in zip(self.state, self.action)]
         if self.noise:
-            self.state += random.normal(0, self.noise, self.dim)
+            self.state = self.state + random.normal(0, self.noise, self.dim)
 
     def f(self, x):
         return [v ** 2 for v in x]
-- 
2.43.0


From ea7f5c53db3fa0a35289370f2cf400bece7cb884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 041/174] fix: the bad spot of the 4x3 maze is absorbing and
 punished

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 5fbfe30..3163480 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -32,10 +32,17 @@ class FourByThreeMaze(MazeTask):
                       [1, 0, 0, 0, 0, 1],
                       [1] * 6, ])
     goal = (3, 4)
+    badPos = (2, 4)
 
     def reset(self):
         MazeTask.reset(self)
-        self.bad = False
+
+    @property
+    def bad(self):
+        return self.env.perseus == self.badPos
+
+    def isFinished(self):
+        return self.bad or MazeTask.isFinished(self)
 
     def performAction(self, action):
         poss = []
-- 
2.43.0


From c255db76acb854647a752350149af92d4f86dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 042/174] fix: the 4x3 maze takes encoded actions

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 3163480..e809cd8 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -1,8 +1,9 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import random, choice
-from scipy import array, zeros
+from scipy import array, zeros, ndarray
 
+from pybrain.utilities import drawIndex
 from .maze import MazeTask
 
 
@@ -34,9 +35,6 @@ class FourByThreeMaze(MazeTask):
     goal = (3, 4)
     badPos = (2, 4)
 
-    def reset(self):
-        MazeTask.reset(self)
-
     @property
     def bad(self):
         return self.env.perseus == self.badPos
@@ -45,6 +43,8 @@ class FourByThreeMaze(MazeTask):
         return self.bad or MazeTask.isFinished(self)
 
     def performAction(self, action):
+        if type(action) == ndarray:
+            action = drawIndex(action, tolerant = True)
         poss = []
         for a in range(self.actions):
             if action - a % 4 != 2:
-- 
2.43.0


From b4e02bbd9306a089dfc1fd0a44a637bcc393a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 043/174] fix: total reward of the minimize task is the sum of
 the rewards given

---
 pybrain/rl/environments/simple/tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/simple/tasks.py b/pybrain/rl/environments/simple/tasks.py
index 7419880..6e91f1c 100644
--- a/pybrain/rl/environments/simple/tasks.py
+++ b/pybrain/rl/environments/simple/tasks.py
@@ -28,8 +28,8 @@ class MinimizeTask(EpisodicTask):
         return self.state
 
     def performAction(self, action):
-        EpisodicTask.performAction(self, action)
         self.action = action
+        EpisodicTask.performAction(self, action)
 
     def getReward(self):
         # sleep(0.01)
-- 
2.43.0


From aaa8ac05f8c7adacd5e4b983cc115f9c664d8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 044/174] fix: policy gradients ignore an episode that has not
 begun

---
 pybrain/rl/learners/directsearch/enac.py           | 11 ++++++-----
 pybrain/rl/learners/directsearch/policygradient.py |  8 ++++++++
 pybrain/rl/learners/directsearch/reinforce.py      |  7 ++++---
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/enac.py b/pybrain/rl/learners/directsearch/enac.py
index 7ae1618..5b4d96f 100644
--- a/pybrain/rl/learners/directsearch/enac.py
+++ b/pybrain/rl/learners/directsearch/enac.py
@@ -17,15 +17,16 @@ class ENAC(PolicyGradientLearner):
         # self.dataset.data['reward'] /= max(ravel(abs(self.dataset.data['reward'])))
 
         # initialize variables
-        R = ones((self.dataset.getNumSequences(), 1), float)
-        X = ones((self.dataset.getNumSequences(), self.loglh.getDimension('loglh') + 1), float)
+        num = self._recordedSequences()
+        R = ones((num, 1), float)
+        X = ones((num, self.loglh.getDimension('loglh') + 1), float)
 
         # collect sufficient statistics
-        print((self.dataset.getNumSequences()))
-        for n in range(self.dataset.getNumSequences()):
+        print(num)
+        for n in range(num):
             _state, _action, reward = self.dataset.getSequence(n)
             seqidx = ravel(self.dataset['sequence_index']).astype(int)
-            if n == self.dataset.getNumSequences() - 1:
+            if n == num - 1:
                 # last sequence until end of dataset
                 loglh = self.loglh['loglh'][seqidx[n]:, :]
             else:
diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 043d6e3..39e7026 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -147,6 +147,14 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         self.loglh.setField('loglh', r_[loglh[:seqidx[index]], loglh[seqidx[index + 1]:]])
         DataSetLearner.removeSequence(self, index)
 
+    def _recordedSequences(self):
+        """ The number of sequences to learn from: a sequence that was started
+            but has no completed interaction yet is not one of them. """
+        num = self.dataset.getNumSequences()
+        if int(self.dataset['sequence_index'][-1]) == len(self.dataset):
+            num -= 1
+        return num
+
     def reset(self):
         self.loglh.clear()
 
diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index a0020a6..54f94b8 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -16,11 +16,12 @@ class Reinforce(PolicyGradientLearner):
         # self.ds.data['reward'] /= max(ravel(abs(self.ds.data['reward'])))
 
         # initialize variables
-        returns = self.dataset.getSumOverSequences('reward')
-        seqidx = ravel(self.dataset['sequence_index']).astype(int)
+        num = self._recordedSequences()
+        returns = self.dataset.getSumOverSequences('reward')[:num]
+        seqidx = ravel(self.dataset['sequence_index']).astype(int)[:num]
 
         # sum of sequences up to n-1
-        loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
+        loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(num - 1)]
         # append sum of last sequence as well
         loglhs.append(sum(self.loglh['loglh'][seqidx[-1]:, :]))
         loglhs = array(loglhs)
-- 
2.43.0


From 42e0b354c0639dd1c775e0f27ceac0e9a5f3d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 045/174] fix: REINFORCE keeps parameters without influence as
 they are

---
 pybrain/rl/learners/directsearch/reinforce.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 54f94b8..1360233 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -1,7 +1,7 @@
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
 from pybrain.rl.learners.directsearch.policygradient import PolicyGradientLearner
-from scipy import mean, ravel, array
+from scipy import mean, ravel, array, where
 
 
 class Reinforce(PolicyGradientLearner):
@@ -26,7 +26,9 @@ class Reinforce(PolicyGradientLearner):
         loglhs.append(sum(self.loglh['loglh'][seqidx[-1]:, :]))
         loglhs = array(loglhs)
 
-        baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
+        # parameters that had no influence on any action need no baseline
+        squares = mean(loglhs ** 2, 0)
+        baselines = mean(loglhs ** 2 * returns, 0) / where(squares > 0, squares, 1)
         # TODO: why gradient negative?
         gradient = -mean(loglhs * (returns - baselines), 0)
 
-- 
2.43.0


From ed05c462aba81907322c8edc7a1b8da49317074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 046/174] fix: refused moves do not count as moves of a game

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 4 ++--
 pybrain/rl/environments/twoplayergames/gomoku.py      | 4 ++--
 pybrain/rl/environments/twoplayergames/pente.py       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 9dd9660..8841c34 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -75,12 +75,12 @@ class CaptureGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
+        if pos != 'resign' and not self.isLegal(c, pos):
+            return False
         self.movesDone += 1
         if pos == 'resign':
             self.winner = -c
             return True
-        elif not self.isLegal(c, pos):
-            return False
         elif self._suicide(c, pos):
             assert self.suicideenabled
             self.b[pos] = 'y'
diff --git a/pybrain/rl/environments/twoplayergames/gomoku.py b/pybrain/rl/environments/twoplayergames/gomoku.py
index c9d6bdb..451b940 100644
--- a/pybrain/rl/environments/twoplayergames/gomoku.py
+++ b/pybrain/rl/environments/twoplayergames/gomoku.py
@@ -79,10 +79,10 @@ class GomokuGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
diff --git a/pybrain/rl/environments/twoplayergames/pente.py b/pybrain/rl/environments/twoplayergames/pente.py
index e02190a..cb95185 100644
--- a/pybrain/rl/environments/twoplayergames/pente.py
+++ b/pybrain/rl/environments/twoplayergames/pente.py
@@ -50,10 +50,10 @@ class PenteGame(GomokuGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
-- 
2.43.0


From 9c684e7a7113b64448f48e72f5715306260349c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 047/174] fix: a Gomoku move outside of the board is illegal

---
 pybrain/rl/environments/twoplayergames/gomoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomoku.py b/pybrain/rl/environments/twoplayergames/gomoku.py
index 451b940..f87ff6c 100644
--- a/pybrain/rl/environments/twoplayergames/gomoku.py
+++ b/pybrain/rl/environments/twoplayergames/gomoku.py
@@ -74,7 +74,7 @@ class GomokuGame(TwoPlayerGame):
         return a
 
     def isLegal(self, c, pos):
-        return self.b[pos] == self.EMPTY
+        return pos in self.b and self.b[pos] == self.EMPTY
 
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
-- 
2.43.0


From f117c59678b7333c1039f1eba1e4860301b40b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 048/174] fix: suicides are not among the legal moves where
 suicide is forbidden

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 8841c34..6d70b00 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -202,7 +202,7 @@ class CaptureGame(TwoPlayerGame):
 
     def getLegals(self, c):
         """ return all the legal positions for a color """
-        return [p for p in self._iterPos() if self.b[p] == self.EMPTY]
+        return [p for p in self._iterPos() if self.isLegal(c, p)]
 
     def getAcceptable(self, c):
         """ return all legal positions for a color that don't commit suicide. """
-- 
2.43.0


From 8cca39ea3639fe706b7428d09acf0d83dbb757dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 049/174] fix: module players address the positions of
 non-square Gomoku boards

---
 .../twoplayergames/gomokuplayers/moduledecision.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
index d6ad145..8642178 100644
--- a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
+++ b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
@@ -59,10 +59,10 @@ class ModuleDecidingPlayer(RandomGomokuPlayer):
         return drawn
 
     def _convertIndexToPos(self, i):
-        return (i//self.game.size[0], i%self.game.size[0])
+        return (i//self.game.size[1], i%self.game.size[1])
 
     def _convertPosToIndex(self, p):
-        return p[0]*self.game.size[0]+p[1]
+        return p[0]*self.game.size[1]+p[1]
 
     def integrateObservation(self, obs = None):
         pass
-- 
2.43.0


From 378f32f44d59c90132ebb786a21f24b22c129aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 050/174] fix: the opponent of a Gomoku or Pente task plays the
 game of the task

---
 pybrain/rl/environments/twoplayergames/tasks/gomokutask.py | 2 ++
 pybrain/rl/environments/twoplayergames/tasks/pentetask.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
index 3c0296d..8355563 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
@@ -38,6 +38,8 @@ class GomokuTask(EpisodicTask, Named):
         elif isclass(opponent):
             # assume the agent can be initialized without arguments then.
             opponent = opponent(self.env)
+        else:
+            opponent.game = self.env
         if not self.opponentStart:
             opponent.color = GomokuGame.WHITE
         self.opponent = opponent
diff --git a/pybrain/rl/environments/twoplayergames/tasks/pentetask.py b/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
index daa5338..65767a6 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
@@ -19,6 +19,8 @@ class PenteTask(GomokuTask):
         elif isclass(opponent):
             # assume the agent can be initialized without arguments then.
             opponent = opponent(self.env)
+        else:
+            opponent.game = self.env
         if not self.opponentStart:
             opponent.color = PenteGame.WHITE
         self.opponent = opponent
-- 
2.43.0


From 1d74cfeec5efae53b70f05f88bd6df1d32da5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 051/174] fix: a draw is not a loss in relative Gomoku scores

---
 .../rl/environments/twoplayergames/tasks/relativegomokutask.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
index bcf49d1..7bb128e 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
@@ -106,6 +106,8 @@ class RelativeGomokuTask(GomokuTask):
             self.env.playToTheEnd(self.opponent, self.player)
         else:
             self.env.playToTheEnd(self.player, self.opponent)
+        if self.env.winner == self.env.DRAW:
+            return 0
         moves = self.env.movesDone
         win = self.env.winner == self.player.color
         if self.verbose:
-- 
2.43.0


From 3bd3e9f2fe8f851f5fc8d34fe4fe14a08737971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 052/174] fix: relative game scores always start at the minimal
 temperature

---
 .../rl/environments/twoplayergames/tasks/relativegomokutask.py   | 1 +
 pybrain/rl/environments/twoplayergames/tasks/relativetask.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
index 7bb128e..5cc01d2 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
@@ -56,6 +56,7 @@ class RelativeGomokuTask(GomokuTask):
         p2.color = -p1.color
         self.player = p1
         self.opponent = p2
+        self._setTemperature()
 
         # the games with increasing temperatures and lower coefficients
         coeffSum = 0.
diff --git a/pybrain/rl/environments/twoplayergames/tasks/relativetask.py b/pybrain/rl/environments/twoplayergames/tasks/relativetask.py
index eeb9239..9914a6d 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/relativetask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/relativetask.py
@@ -63,6 +63,7 @@ class RelativeCaptureTask(CaptureGameTask):
         p2.color = -p1.color
         self.player = p1
         self.opponent = p2
+        self._setTemperature()
 
         # the games with increasing temperatures and lower coefficients
         coeffSum = 0.
-- 
2.43.0


From 8ac05d8c5c202d6816b106c63437ec6072dbb3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 053/174] fix: drawn games of a tournament are not won by the
 second player

---
 pybrain/rl/experiments/tournament.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/experiments/tournament.py b/pybrain/rl/experiments/tournament.py
index d298311..c467ee0 100644
--- a/pybrain/rl/experiments/tournament.py
+++ b/pybrain/rl/experiments/tournament.py
@@ -64,7 +64,9 @@ class Tournament(Named):
         if players not in self.results:
             self.results[players] = []
         wincolor = self.env.getWinner()
-        if wincolor == p1.color:
+        if wincolor == self.env.DRAW:
+            winner = self.env.DRAW
+        elif wincolor == p1.color:
             winner = p1
         else:
             winner = p2
-- 
2.43.0


From 2bbbba5e89f747952cd7d597cd5b7e7ce8946cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 054/174] fix: a tournament accounts for the games that were
 completed

---
 pybrain/rl/experiments/tournament.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/experiments/tournament.py b/pybrain/rl/experiments/tournament.py
index c467ee0..71e0ab5 100644
--- a/pybrain/rl/experiments/tournament.py
+++ b/pybrain/rl/experiments/tournament.py
@@ -37,7 +37,6 @@ class Tournament(Named):
 
     def _oneGame(self, p1, p2):
         """ play one game between two agents p1 and p2."""
-        self.numGames += 1
         self.env.reset()
         players = (p1, p2)
         p1.color = self.startcolor
@@ -71,6 +70,7 @@ class Tournament(Named):
         else:
             winner = p2
         self.results[players].append(winner)
+        self.numGames += 1
 
     def organize(self, repeat=1):
         """ have all agents play all others in all orders, and repeat. """
@@ -95,7 +95,7 @@ class Tournament(Named):
             for a2 in self.agents[i + 1:]:
                 # compute score (in favor of a1)
                 s = 0
-                outcomes = self.results[(a1, a2)] + self.results[(a2, a1)]
+                outcomes = self.results.get((a1, a2), []) + self.results.get((a2, a1), [])
                 for r in outcomes:
                     if r == a1:
                         s += 1.
@@ -113,7 +113,7 @@ class Tournament(Named):
     def __str__(self):
         s = 'Tournament results (' + str(self.rounds) + ' rounds, ' + str(self.numGames) + ' games):\n'
         for p1, p2 in self._produceAllPairs():
-            wins = len([x for x in self.results[(p1, p2)] if x == p1])
-            losses = len([x for x in self.results[(p1, p2)] if x == p2])
+            wins = len([x for x in self.results.get((p1, p2), []) if x == p1])
+            losses = len([x for x in self.results.get((p1, p2), []) if x == p2])
             s += ' ' * 3 + p1.name + ' won ' + str(wins) + ' times and lost ' + str(losses) + ' times against ' + p2.name + '\n'
         return s
-- 
2.43.0


From a3df7c6492a0debf59d20a1c77b7b80f7f266524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 055/174] fix: the best individual of the initial population of
 an optimizer is not forgotten

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d6faf3f..d811559 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -152,8 +152,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
         #set the starting point for optimization (as provided, or randomly)
         self._setInitEvaluable(initEvaluable)        
         self.bestEvaluation = None
-        self._additionalInit()
         self.bestEvaluable = self._initEvaluable
+        self._additionalInit()
         
     def _flipDirection(self):
         self.__evaluator = oppositeFunction(self.__evaluator)
-- 
2.43.0


From ee2f0d9c1eecbf3201538755b1e300b9d6ea1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 056/174] fix: problem dimensions are compared by value

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d811559..07dc32e 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -129,7 +129,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if isinstance(evaluator, FunctionEnvironment):
                 if self.numParameters is None:            
                     self.numParameters = evaluator.xdim
-                elif self.numParameters is not evaluator.xdim:
+                elif self.numParameters != evaluator.xdim:
                     raise ValueError("Parameter dimension mismatch: evaluator expects "+str(evaluator.xdim)\
                                      +" but it was set to "+str(self.numParameters)+".")
                 '''added by JPQ to handle boundaries on the parameters'''
-- 
2.43.0


From 742e6c8525d2d2477682559794cefb1579a538bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 057/174] fix: desiredEvaluation always refers to the values of
 the evaluator, also if it is set later or the evaluator is replaced

---
 pybrain/optimization/memetic/memetic.py |  2 +-
 pybrain/optimization/optimizer.py       | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index 74ab11e..cf55edf 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -38,7 +38,7 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
                 x0 = evaluable
             outsourced = self.localSearch(f, x0,
                                           maxEvaluations = self.localSteps,
-                                          desiredEvaluation = self.desiredEvaluation,
+                                          desiredEvaluation = self._desiredFitness,
                                           minimize = self.minimize,
                                           **self.localSearchArgs)
             assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 07dc32e..c6b9ccc 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -157,8 +157,13 @@ class BlackBoxOptimizer(DirectSearchLearner):
         
     def _flipDirection(self):
         self.__evaluator = oppositeFunction(self.__evaluator)
-        if self.desiredEvaluation is not None:
-            self.desiredEvaluation *= -1        
+        
+    @property
+    def _desiredFitness(self):
+        """ the desired evaluation, in the direction the algorithm is working in. """
+        if self._wasOpposed and self.desiredEvaluation is not None:
+            return -self.desiredEvaluation
+        return self.desiredEvaluation
         
     def _additionalInit(self):
         """ a method for subclasses that need additional initialization code but don't want to redefine __init__ """
@@ -284,8 +289,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
         if self.maxEvaluations is not None and self.numEvaluations+self.batchSize > self.maxEvaluations:
             return True
         if self.desiredEvaluation is not None and self.bestEvaluation is not None and isscalar(self.bestEvaluation):
-            if ((self.minimize and self.bestEvaluation <= self.desiredEvaluation)
-                or (not self.minimize and self.bestEvaluation >= self.desiredEvaluation)):
+            if ((self.minimize and self.bestEvaluation <= self._desiredFitness)
+                or (not self.minimize and self.bestEvaluation >= self._desiredFitness)):
                 return True
         if self.maxLearningSteps is not None and self.numLearningSteps > self.maxLearningSteps:
             return True
-- 
2.43.0


From 7db3444f1285bda9ef0b18fa40ccfe6c4f521538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 058/174] fix: changing the direction of an optimizer does not
 keep the best of the other direction

---
 pybrain/optimization/optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index c6b9ccc..52be8e8 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -97,6 +97,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
     def _setMinimize(self, flag):
         """ Minimization vs. maximization: priority to algorithm requirements, 
         then evaluator, default = maximize."""
+        wasMinimizing = self.__minimize if not self._wasOpposed else not self.__minimize
         self.__minimize = flag
         opp = False
         if flag is True:
@@ -111,6 +112,11 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if opp is not self._wasOpposed: 
                 self._flipDirection()
         self._wasOpposed = opp
+        if self.__evaluator is not None and bool(flag) != bool(wasMinimizing):
+            # what was best until now is not comparable: start over in the other direction
+            self.bestEvaluation = None
+            self.bestEvaluable = self._initEvaluable
+            self._additionalInit()
         
     #: Minimize cost or maximize fitness? By default, all functions are maximized.    
     minimize = property(_getMinimize, _setMinimize)
-- 
2.43.0


From 19780f8c80f153fa2d417f6f0402d52698d73fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 059/174] fix: an optimizer does maxLearningSteps steps, not
 one more

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 52be8e8..d8b16a0 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -206,7 +206,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
         """ The main loop that does the learning. """
         assert self.__evaluator is not None, "No evaluator has been set. Learning cannot start."
         if additionalLearningSteps is not None:
-            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps - 1
+            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps
         while not self._stoppingCriterion():
             try:
                 self._learnStep()
@@ -298,7 +298,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if ((self.minimize and self.bestEvaluation <= self._desiredFitness)
                 or (not self.minimize and self.bestEvaluation >= self._desiredFitness)):
                 return True
-        if self.maxLearningSteps is not None and self.numLearningSteps > self.maxLearningSteps:
+        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
             return True
         return False
     
-- 
2.43.0


From 3136d06ad504f192aa4ddbbb814ba010f096dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 060/174] fix: evolution strategies can do more than the
 initial evaluations

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index c2405b7..473dbd6 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -49,7 +49,7 @@ class ES(BlackBoxOptimizer):
             self._sortPopulation(noHallOfFame = True)
 
         # produce offspring from the the mu best ones
-        self.population = self.population[:self.mu] * (self._popsize/self.mu)
+        self.population = self.population[:self.mu] * (self._popsize//self.mu)
 
         # mutate the offspring
         if self.elitism:
-- 
2.43.0


From 8aeacb405ab6e4a77c7bff4bfb255b9295a5caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 061/174] fix: an evolution strategy with a noisy evaluator
 respects the evaluation budget

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index 473dbd6..ba0e320 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -70,7 +70,7 @@ class ES(BlackBoxOptimizer):
     @property
     def batchSize(self):
         if self.evaluatorIsNoisy:
-            return self._popsize
+            return self.mu + self.lambada
         else:
             return self.lambada
 
-- 
2.43.0


From d0e4eeb61a7d817cb919e0b770edf27d38f933a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 062/174] fix: stochastic hill-climbing does not lose the best
 point found

---
 pybrain/optimization/hillclimber.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pybrain/optimization/hillclimber.py b/pybrain/optimization/hillclimber.py
index ca15e8a..43c69a0 100644
--- a/pybrain/optimization/hillclimber.py
+++ b/pybrain/optimization/hillclimber.py
@@ -40,20 +40,25 @@ class StochasticHillClimber(HillClimber):
     #: The larger the temperature, the more explorative (less greedy) it behaves.
     temperature = 1.
 
+    def _additionalInit(self):
+        # the point the search is at (not necessarily the best one found)
+        self._current = self._initEvaluable
+        self._currentEvaluation = self._oneEvaluation(self._initEvaluable)
+
     def _learnStep(self):
         # re-evaluate the current individual in case the evaluator is noisy
         if self.evaluatorIsNoisy:
-            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
+            self._currentEvaluation = self._oneEvaluation(self._current)
 
         # hill-climbing
-        challenger = self.bestEvaluable.copy()
+        challenger = self._current.copy()
         challenger.mutate()
         newEval = self._oneEvaluation(challenger)
 
-        # if the new evaluation was better, it got stored automatically. Otherwise:
-        if ((not self.minimize and newEval < self.bestEvaluation) or
-            (self.minimize and newEval > self.bestEvaluation)):
-            acceptProbability = exp(-abs(newEval-self.bestEvaluation)/self.temperature)
-            if random() < acceptProbability:
-                self.bestEvaluable, self.bestEvaluation = challenger, newEval
+        worse = ((not self.minimize and newEval < self._currentEvaluation) or
+                 (self.minimize and newEval > self._currentEvaluation))
+        if worse:
+            acceptProbability = exp(-abs(newEval-self._currentEvaluation)/self.temperature)
+        if not worse or random() < acceptProbability:
+            self._current, self._currentEvaluation = challenger, newEval
 
-- 
2.43.0


From 28ea8dd65c8578fe822f92f1ed8524119fe0bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 063/174] fix: Nelder-Mead respects the evaluation budget, or
 the absence of one

---
 pybrain/optimization/neldermead.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/neldermead.py b/pybrain/optimization/neldermead.py
index 394d6be..2112cab 100644
--- a/pybrain/optimization/neldermead.py
+++ b/pybrain/optimization/neldermead.py
@@ -1,5 +1,6 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
+from scipy import inf
 from scipy.optimize import fmin
 
 from pybrain.optimization.optimizer import ContinuousOptimizer
@@ -22,13 +23,22 @@ class NelderMead(ContinuousOptimizer):
         if self._stoppingCriterion():
             raise DesiredFoundException()
 
+    def _boundedEvaluation(self, x):
+        # fmin checks its limit of evaluations only between its iterations
+        self._callback()
+        return self._oneEvaluation(x)
+
     def _learnStep(self):
+        if self.maxEvaluations is None:
+            maxfun = inf
+        else:
+            maxfun = self.maxEvaluations-self.numEvaluations
         try:
-            fmin(func = self._oneEvaluation,
+            fmin(func = self._boundedEvaluation,
                  x0 = self.bestEvaluable,
                  callback = self._callback,
                  ftol = self.stopPrecision,
-                 maxfun = self.maxEvaluations-self.numEvaluations-1,
+                 maxfun = maxfun,
                  disp = self.verbose)
         except DesiredFoundException:
             pass
-- 
2.43.0


From 2c1d47fd7d0d98e0feb8f50f919fde23d325f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 064/174] fix: a failing evaluation does not leave mutate and
 topologyMutate interchanged

---
 .../memetic/innerinversememetic.py            |  6 ++-
 pybrain/optimization/memetic/innermemetic.py  |  6 ++-
 .../optimization/memetic/inversememetic.py    |  6 ++-
 pybrain/optimization/memetic/memetic.py       | 44 ++++++++++---------
 4 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/pybrain/optimization/memetic/innerinversememetic.py b/pybrain/optimization/memetic/innerinversememetic.py
index 61e4c83..725cbde 100644
--- a/pybrain/optimization/memetic/innerinversememetic.py
+++ b/pybrain/optimization/memetic/innerinversememetic.py
@@ -8,5 +8,7 @@ class InnerInverseMemeticSearch(InnerMemeticSearch, InverseMemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        InnerMemeticSearch._learnStep(self)
-        self.switchMutations()
\ No newline at end of file
+        try:
+            InnerMemeticSearch._learnStep(self)
+        finally:
+            self.switchMutations()
\ No newline at end of file
diff --git a/pybrain/optimization/memetic/innermemetic.py b/pybrain/optimization/memetic/innermemetic.py
index 4f98bc7..bbb93cb 100644
--- a/pybrain/optimization/memetic/innermemetic.py
+++ b/pybrain/optimization/memetic/innermemetic.py
@@ -12,8 +12,10 @@ class InnerMemeticSearch(ES, MemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        ES._learnStep(self)
-        self.switchMutations()
+        try:
+            ES._learnStep(self)
+        finally:
+            self.switchMutations()
 
     @property
     def batchSize(self):
diff --git a/pybrain/optimization/memetic/inversememetic.py b/pybrain/optimization/memetic/inversememetic.py
index 053e35d..0253734 100644
--- a/pybrain/optimization/memetic/inversememetic.py
+++ b/pybrain/optimization/memetic/inversememetic.py
@@ -8,5 +8,7 @@ class InverseMemeticSearch(MemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        MemeticSearch._learnStep(self)
-        self.switchMutations()
+        try:
+            MemeticSearch._learnStep(self)
+        finally:
+            self.switchMutations()
diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index cf55edf..a751ca1 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -26,31 +26,35 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
             return BlackBoxOptimizer._oneEvaluation(self, evaluable)
         else:
             self.switchMutations()
-            if isinstance(evaluable, MaskedParameters):
-                evaluable.returnZeros = False
-                x0 = evaluable.params
-                evaluable.returnZeros = True
-                def f(x):
-                    evaluable._setParameters(x)
-                    return BlackBoxOptimizer._oneEvaluation(self, evaluable)
-            else:
-                f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
-                x0 = evaluable
-            outsourced = self.localSearch(f, x0,
-                                          maxEvaluations = self.localSteps,
-                                          desiredEvaluation = self._desiredFitness,
-                                          minimize = self.minimize,
-                                          **self.localSearchArgs)
-            assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
+            try:
+                if isinstance(evaluable, MaskedParameters):
+                    evaluable.returnZeros = False
+                    x0 = evaluable.params
+                    evaluable.returnZeros = True
+                    def f(x):
+                        evaluable._setParameters(x)
+                        return BlackBoxOptimizer._oneEvaluation(self, evaluable)
+                else:
+                    f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
+                    x0 = evaluable
+                outsourced = self.localSearch(f, x0,
+                                              maxEvaluations = self.localSteps,
+                                              desiredEvaluation = self._desiredFitness,
+                                              minimize = self.minimize,
+                                              **self.localSearchArgs)
+                assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
                                                 '), because local search has a batch size of '+str(outsourced.batchSize)
-            _, fitness = outsourced.learn()
-            self.switchMutations()
+                _, fitness = outsourced.learn()
+            finally:
+                self.switchMutations()
             return fitness
 
     def _learnStep(self):
         self.switchMutations()
-        HillClimber._learnStep(self)
-        self.switchMutations()
+        try:
+            HillClimber._learnStep(self)
+        finally:
+            self.switchMutations()
 
     def _notify(self):
         HillClimber._notify(self)
-- 
2.43.0


From 3887d79817685216e005a859bc0ab9f194b43235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 065/174] fix: memetic search with a noisy evaluator respects
 the evaluation budget

---
 pybrain/optimization/memetic/memetic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index a751ca1..907fa76 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -63,4 +63,7 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
 
     @property
     def batchSize(self):
-        return self.localSteps
+        if self.evaluatorIsNoisy:
+            return 2 * self.localSteps
+        else:
+            return self.localSteps
-- 
2.43.0


From 8ac74bdfd8d05aa969eebe0b5b1a82bb6f8e7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 066/174] fix: copies of masked parameters keep their own
 values

---
 pybrain/structure/evolvables/maskedmodule.py     | 5 +++++
 pybrain/structure/evolvables/maskedparameters.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedmodule.py b/pybrain/structure/evolvables/maskedmodule.py
index 0f3e703..c777a0e 100644
--- a/pybrain/structure/evolvables/maskedmodule.py
+++ b/pybrain/structure/evolvables/maskedmodule.py
@@ -14,18 +14,23 @@ class MaskedModule(MaskedParameters, Module):
         return self.pcontainer._resetBuffers()
 
     def activate(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.activate(*args, **kwargs)
 
     def backActivate(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.backActivate(*args, **kwargs)
 
     def forward(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.forward(*args, **kwargs)
 
     def backward(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.backward(*args, **kwargs)
 
     def activateOnDataset(self, *args, **kwargs):
+        self._applyMask()
         return self.pcontainer.activateOnDataset(*args, **kwargs)
 
 
diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index caf0020..d584974 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -47,7 +47,8 @@ class MaskedParameters(TopologyEvolvable):
     def params(self):
         """ returns an array with (usually) only the unmasked parameters """
         if self.returnZeros:
-            return self.pcontainer.params
+            # the container is shared with the copies, which may have set other values
+            return self.mask*self.maskableParams
         else:
             x = zeros(self.paramdim)
             paramcount = 0
-- 
2.43.0


From da9ad35bd1edd76e2833fee30ac177a6cce267aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 067/174] fix: a random mask leaves at least one parameter
 enabled

---
 pybrain/structure/evolvables/maskedparameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index d584974..649d19a 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -80,6 +80,9 @@ class MaskedParameters(TopologyEvolvable):
         if over > 0:
             for i in sample(onbits, over):
                 self.mask[i] = False
+        if not onbits and self.pcontainer.paramdim > 0:
+            # there must always be at least one on
+            self.mask[int(random()*self.pcontainer.paramdim)] = True
         self.maskableParams = randn(self.pcontainer.paramdim)*self.stdParams
         self._applyMask()
 
-- 
2.43.0


From f6c8dd1aa80162d7c87344397821ce8af6aedf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 068/174] fix: masked parameters start from the values of their
 container

---
 pybrain/structure/evolvables/maskedparameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index 649d19a..af64a49 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -28,8 +28,10 @@ class MaskedParameters(TopologyEvolvable):
         TopologyEvolvable.__init__(self, pcontainer, **args)
         if self.maxComplexity == None:
             self.maxComplexity = self.pcontainer.paramdim
+        # only the mask is random: the values are those of the container
+        initial = self.pcontainer.params.copy()
         self.randomize()
-        self.maskableParams = self.pcontainer.params.copy()
+        self.maskableParams = initial
         self._applyMask()
 
     def _applyMask(self):
-- 
2.43.0


From 7e7dc11a7b3d7c27ba7c373de236a792b12450f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 069/174] fix: genetic algorithms accept the scalar bounds of
 function environments

---
 pybrain/optimization/populationbased/ga.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index 083c7f2..60797df 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -1,7 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from scipy import randn, zeros
-from scipy import random as rd, array
+from scipy import random as rd, array, isscalar
 from random import choice, random, gauss, shuffle, sample
 from numpy import ndarray
 
@@ -34,6 +34,9 @@ class GA(ContinuousOptimizer, Evolution):
 
     '''added by JPQ'''
     def initBoundaries(self):
+        if isscalar(self.xBound):
+            # the same symmetric range for every parameter
+            self.xBound = [(-self.xBound, self.xBound)] * self.numParameters
         assert len(self.xBound) == self.numParameters
         self.mins = array([min_ for min_, max_ in self.xBound])
         self.maxs = array([max_ for min_, max_ in self.xBound])
-- 
2.43.0


From f1d42be03418c5eaaa8f04a82d9ec34b16b3724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 070/174] fix: genetic algorithms with few selected parents
 produce a full generation

---
 pybrain/optimization/populationbased/ga.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index 60797df..04ccc7d 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -115,6 +115,9 @@ class GA(ContinuousOptimizer, Evolution):
                 res[:point] = p2[:point]
                 res[point:] = p1[point:]
                 children.append(res)
+        if not children:
+            # a single parent
+            children = list(parents)
         shuffle(children)
         if len(children) > nbChildren:
             children = children[:nbChildren]  
@@ -176,7 +179,7 @@ class GA(ContinuousOptimizer, Evolution):
     @property
     def selectionSize(self):
         """ the number of parents selected from the current population """
-        return int(self.populationSize * self.topProportion)
+        return max(1, int(self.populationSize * self.topProportion))
 
     @property
     def eliteSize(self):
-- 
2.43.0


From 22b71eba5882728400cd15ec78f212fbb875ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 071/174] fix: fronts of more than 100 individuals

---
 pybrain/tools/nondominated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9f0fb7d..9ba0fcb 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -150,9 +150,9 @@ def _non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True
     items = list(iterable)
     l = len(items)
     if l > 100:
-        part1 = list(_non_dominated_front_merge_arr(items[:l / 2], key, allowequality))
-        part2 = list(_non_dominated_front_merge_arr(items[l / 2:], key, allowequality))
-        if len(part1) >= l / 3 or len(part2) >= l / 3:
+        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
+        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
+        if len(part1) >= l // 3 or len(part2) >= l // 3:
             return _non_dominated_front_arr(part1 + part2, key, allowequality)
         else:
             return _non_dominated_front_merge_arr(part1 + part2, key, allowequality)
-- 
2.43.0


From 12b523d3aeef4f0e396e3151545f24f0fdd7410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 072/174] fix: natural evolution strategies work: the number of
 distribution parameters is an integer

---
 pybrain/optimization/distributionbased/ves.py | 2 +-
 pybrain/utilities.py                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 4851294..561c47a 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -47,7 +47,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
     def _additionalInit(self):
         xdim = self.numParameters
         assert not self.diagonalOnly, 'Diagonal-only not yet supported'
-        self.numDistrParams = xdim + xdim * (xdim + 1) / 2
+        self.numDistrParams = xdim + xdim * (xdim + 1) // 2
 
         if self.momentum != None:
             self.momentumVector = zeros(self.numDistrParams)
diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 5696ae9..6405183 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -566,7 +566,7 @@ def triu2flat(m):
     """ Flattens an upper triangular matrix, returning a vector of the
     non-zero elements. """
     dim = m.shape[0]
-    res = zeros(dim * (dim + 1) / 2)
+    res = zeros(dim * (dim + 1) // 2)
     index = 0
     for row in range(dim):
         res[index:index + dim - row] = m[row, row:]
-- 
2.43.0


From c81112eb94f51f93fdf7371d943667a7794852e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 073/174] fix: samples and fitnesses of natural evolution
 strategies stay aligned when an evaluation fails

---
 pybrain/optimization/distributionbased/ves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 561c47a..3401998 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -86,11 +86,11 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
             self._allDistributions = [(self.x.copy(), self.sigma.copy())]
 
     def _produceNewSample(self, z=None):
-        if z == None:
+        if z is None:
             p = randn(self.numParameters)
             z = dot(self.factorSigma.T, p) + self.x
-        self.allSamples.append(z)
         fit = self._oneEvaluation(z)
+        self.allSamples.append(z)
         self.allFitnesses.append(fit)
         return z, fit
 
-- 
2.43.0


From 4623ecf8db19f5ef057214d52453f4f8e163ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 074/174] fix: ranges and covariances of search distributions
 can be given as arrays

---
 pybrain/optimization/distributionbased/fem.py |  6 +++---
 pybrain/optimization/distributionbased/ves.py | 18 +++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index 86edfb9..c5faee6 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -59,11 +59,11 @@ class FEM(DistributionBasedOptimizer):
         self.mus = []
         self.sigmas = []
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 3401998..8843c97 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -49,18 +49,18 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         assert not self.diagonalOnly, 'Diagonal-only not yet supported'
         self.numDistrParams = xdim + xdim * (xdim + 1) // 2
 
-        if self.momentum != None:
+        if self.momentum is not None:
             self.momentumVector = zeros(self.numDistrParams)
-        if self.learningRateSigma == None:
+        if self.learningRateSigma is None:
             self.learningRateSigma = self.learningRate
         if self.batchSize is None:
             self.batchSize = 10 * self.numParameters
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
@@ -153,7 +153,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
             # update parameters (unbiased: divide by batchsize)
             update = self._calcBatchUpdate(shapedFits)
             if self.elitism:
-                self.x = self.bestEvaluable
+                self.x = self.bestEvaluable.copy()
             else:
                 self.x += self.learningRate * update[:xdim]
             self.factorSigma += self.learningRateSigma * flat2triu(update[xdim:], xdim)
@@ -199,7 +199,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
 
     def _calcBatchUpdate(self, fitnesses):
         gradient = self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses)
-        if self.momentum != None:
+        if self.momentum is not None:
             self.momentumVector *= self.momentum
             self.momentumVector += gradient
             return self.momentumVector
@@ -208,7 +208,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
 
     def _calcOnlineUpdate(self, fitnesses):
         gradient = self._calcVanillaOnlineGradient(self.allSamples[-1], fitnesses[-self.batchSize:])
-        if self.momentum != None:
+        if self.momentum is not None:
             self.momentumVector *= self.momentum
             self.momentumVector += gradient
             return self.momentumVector
@@ -274,7 +274,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
     def _revertToSafety(self):
         """ When encountering a bad matrix, this is how we revert to a safe one. """
         self.factorSigma = eye(self.numParameters)
-        self.x = self.bestEvaluable
+        self.x = self.bestEvaluable.copy()
         self.allFactorSigmas[-1][:] = self.factorSigma
         self.sigma = dot(self.factorSigma.T, self.factorSigma)
 
-- 
2.43.0


From 039bef8c7865d41e849b2a9187d3c578eeaaad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 075/174] fix: multi-objective optimization without elitism
 keeps the best of all generations

---
 .../populationbased/multiobjective/constnsga2.py    | 13 ++++++++++---
 .../populationbased/multiobjective/nsga2.py         | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pybrain/optimization/populationbased/multiobjective/constnsga2.py b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
index c346362..99bb2bf 100644
--- a/pybrain/optimization/populationbased/multiobjective/constnsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
@@ -42,14 +42,21 @@ class ConstMultiObjectiveGA(GA):
             self._allGenerations.append((self.currentpop, self.fitnesses))
 
         if self.elitism:
+            known = self.fitnesses
             self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
         else:
-            self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            if isinstance(self.bestEvaluable, list):
+                # the best of the previous generations
+                known = dict(zip(self.bestEvaluable, self.bestEvaluation))
+            else:
+                known = {}
+            known.update(self.fitnesses)
+            self.bestEvaluable = list(const_non_dominated_front(list(known),
+                                                          key=lambda x: known[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+        self.bestEvaluation = [known[indiv] for indiv in self.bestEvaluable]
 #        self.eliteProportion = float(len(self.bestEvaluable))/self.populationSize
 #        number_of_feasible = const_number_of_feasible_pop(map(tuple, self.currentpop),
 #                                                          key=lambda x: self.fitnesses[x],
diff --git a/pybrain/optimization/populationbased/multiobjective/nsga2.py b/pybrain/optimization/populationbased/multiobjective/nsga2.py
index 3cc7fba..4eff9aa 100644
--- a/pybrain/optimization/populationbased/multiobjective/nsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/nsga2.py
@@ -44,14 +44,21 @@ class MultiObjectiveGA(GA):
             self._allGenerations.append((self.currentpop, self.fitnesses))
 
         if self.elitism:
+            known = self.fitnesses
             self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
         else:
-            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            if isinstance(self.bestEvaluable, list):
+                # the best of the previous generations
+                known = dict(zip(self.bestEvaluable, self.bestEvaluation))
+            else:
+                known = {}
+            known.update(self.fitnesses)
+            self.bestEvaluable = list(non_dominated_front(list(known),
+                                                          key=lambda x: known[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+        self.bestEvaluation = [known[indiv] for indiv in self.bestEvaluable]
 
         self.produceOffspring()
 
-- 
2.43.0


From 921111304b44d18a1d929458a8a3a0bc8b670850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 076/174] fix: crowding distance of individuals that agree in
 an objective

---
 pybrain/tools/nondominated.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9ba0fcb..785a40f 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -18,6 +18,9 @@ def crowding_distance(individuals, fitnesses):
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
+        if normalization == 0:
+            # no difference in this objective
+            continue
         tripled = list(zip(individuals, individuals[1:-1], individuals[2:]))
         for pre, ind, post in tripled:
             distances[ind] += (fitnesses[pre][i] - fitnesses[post][i]) / normalization
@@ -267,6 +270,9 @@ def const_crowding_distance(individuals, fitnesses):
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
+        if normalization == 0:
+            # no difference in this objective
+            continue
         tripled = list(zip(individuals, individuals[1:-1], individuals[2:]))
         for pre, ind, post in tripled:
             distances[ind] += (fitnesses[pre][0][i] - fitnesses[post][0][i]) / normalization
-- 
2.43.0


From bdd44b5a20a3c91fa98817ab8a64ecdb9eebda7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 077/174] fix: PGPE can explore globally

---
 pybrain/optimization/finitedifference/pgpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/finitedifference/pgpe.py b/pybrain/optimization/finitedifference/pgpe.py
index c6da77d..1264cd6 100644
--- a/pybrain/optimization/finitedifference/pgpe.py
+++ b/pybrain/optimization/finitedifference/pgpe.py
@@ -72,7 +72,7 @@ class PGPE(FiniteDifferences):
         if fakt2 > 0.: #for sigma adaption alg. follows only positive gradients
             if self.exploration == "global":         
                 #apply sigma update globally        
-                self.sigList = self.gdSig(fakt2 * ((self.deltas ** 2).sum() - (self.sigList ** 2).sum())
+                self.sigList = self.gdSig(fakt2 * ((deltas ** 2).sum() - (self.sigList ** 2).sum())
                                           / (self.sigList * float(self.numParameters)))
             elif self.exploration == "local":
                 #apply sigma update locally
-- 
2.43.0


From dcc175125ef5b969fdcc15909630e1c66b0ed5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 078/174] fix: online natural evolution strategies can store
 their distributions

---
 pybrain/optimization/distributionbased/ves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 8843c97..7672a36 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -195,7 +195,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         self.sigma = dot(self.factorSigma.T, self.factorSigma)
 
         if self.storeAllDistributions:
-            self._allDistributions.append(self.x.copy(), self.sigma.copy())
+            self._allDistributions.append((self.x.copy(), self.sigma.copy()))
 
     def _calcBatchUpdate(self, fitnesses):
         gradient = self._calcVanillaBatchGradient(self.allSamples[-self.batchSize:], fitnesses)
-- 
2.43.0


From 858ee276b61cb3250a361e44a499d0d2177f2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 079/174] fix: importance mixing in XNES reuses samples, not
 their fitnesses

---
 pybrain/optimization/distributionbased/xnes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/distributionbased/xnes.py b/pybrain/optimization/distributionbased/xnes.py
index 245ebe3..c12880d 100644
--- a/pybrain/optimization/distributionbased/xnes.py
+++ b/pybrain/optimization/distributionbased/xnes.py
@@ -48,6 +48,9 @@ class XNES(DistributionBasedOptimizer):
         self._logDetA = 0.
         self._allPointers = []
         self._allGenSteps = [0]
+        if self.importanceMixing:
+            # needs the previous distribution
+            self.storeAllDistributions = True
         if self.storeAllDistributions:
             self._allDistributions = [(self._center.copy(), self._A.copy())]
 
@@ -125,7 +128,7 @@ class XNES(DistributionBasedOptimizer):
             [self._oneEvaluation(self._sample2base(self._produceSample())) for _ in range(self.batchSize)]
             self._pointers = list(range(len(self._allEvaluated)-self.batchSize, len(self._allEvaluated)))
         else:
-            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._currentEvaluations)),
+            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._population)),
                                                        self._oldpdf, self._newpdf, self._produceSample, self.forcedRefresh)
             [self._oneEvaluation(self._sample2base(s)) for s in newpoints]
             self._pointers = ([self._pointers[i] for i in reuseindices]+
-- 
2.43.0


From c9f54236b5db0872751b1a8dfb198d27b44194e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 080/174] fix: function environments with their own
 initialization can be optimized

---
 pybrain/rl/environments/functions/function.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/rl/environments/functions/function.py b/pybrain/rl/environments/functions/function.py
index f8cee04..0eb1dc8 100644
--- a/pybrain/rl/environments/functions/function.py
+++ b/pybrain/rl/environments/functions/function.py
@@ -26,6 +26,12 @@ class FunctionEnvironment(Environment, FitnessEvaluator):
     # does the function already include a penalization term, to keep search near the origin?
     penalized = False
 
+    # bounds and constraints (also for the functions that have their own initialization)
+    xbound = 5
+    feasible = True
+    constrained = False
+    violation = False
+
     def __init__(self, xdim = None, xopt = None, xbound=5, feasible=True, constrained=False, violation=False, **args):
         self.feasible=feasible
         self.constrained=constrained
-- 
2.43.0


From 6c111a95db6ad25fa62bf59636b8ce5ffda4a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 081/174] fix: constrained optimization takes the constraints
 into account

---
 .../environments/functions/transformations.py  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index d34f00f..f6db750 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -12,13 +12,29 @@ from pybrain.utilities import sparse_orth, dense_orth
 from pybrain.rl.environments.functions.multiobjective import MultiObjectiveFunction
 
 
+class OppositeMultiObjectiveFunction(MultiObjectiveFunction):
+    """ the opposite of a multi-objective function: its constraints are those of the function. """
+
+    def __init__(self, basef):
+        MultiObjectiveFunction.__init__(self)
+        self._basef = basef
+
+    @property
+    def outfeasible(self):
+        return self._basef.outfeasible
+
+    @property
+    def outviolation(self):
+        return self._basef.outviolation
+
+
 def oppositeFunction(basef):
     """ the opposite of a function """
     if isinstance(basef, FitnessEvaluator):
         if isinstance(basef, FunctionEnvironment):
             ''' added by JPQ '''
             if isinstance(basef, MultiObjectiveFunction):
-                res = MultiObjectiveFunction()
+                res = OppositeMultiObjectiveFunction(basef)
             else:
             # ---
                 res = FunctionEnvironment(basef.xdim, basef.xopt)
-- 
2.43.0


From 81cbe5f36b069312617629e84e9afa98a9334096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 082/174] fix: the Schaffer benchmark has scalar objectives

---
 pybrain/rl/environments/functions/multiobjective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multiobjective.py b/pybrain/rl/environments/functions/multiobjective.py
index c5006ae..72e0133 100644
--- a/pybrain/rl/environments/functions/multiobjective.py
+++ b/pybrain/rl/environments/functions/multiobjective.py
@@ -43,7 +43,7 @@ class SchBenchmark(MultiObjectiveFunction):
     xdimMax = 1
 
     def f(self, x):
-        return -array([x**2, (x-2)**2])
+        return -array([x[0]**2, (x[0]-2)**2])
 
 
 class FonBenchmark(MultiObjectiveFunction):
-- 
2.43.0


From 690617cc2707c22f1612b8cdfe3f51da03684b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:52 +0000
Subject: [PATCH 083/174] fix: initial points can consist of integers, and are
 not modified

---
 pybrain/optimization/optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d8b16a0..9e7ee7a 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -183,8 +183,9 @@ class BlackBoxOptimizer(DirectSearchLearner):
             else:
                 raise ValueError('Could not determine the dimensionality of the evaluator. '+\
                                  'Please provide an initial search point.')   
-        if isinstance(evaluable, list):
-            evaluable = array(evaluable)
+        if isinstance(evaluable, (list, ndarray)):
+            # a copy: the point given is not modified (and may consist of integers)
+            evaluable = array(evaluable, dtype=float)
         
         # If the evaluable is provided as a list of numbers or as an array,
         # we wrap it into a ParameterContainer.
-- 
2.43.0


From 6a710db87868d603c15724b2e66b34615582a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:52 +0000
Subject: [PATCH 084/174] fix: masking parameters does not modify the initial
 evaluable

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 9e7ee7a..bf8e5f4 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -349,8 +349,8 @@ class TopologyOptimizer(BlackBoxOptimizer):
         # distinguish modules from parameter containers.
         if not isinstance(evaluable, TopologyEvolvable):
             if isinstance(evaluable, Module):
-                self._initEvaluable = MaskedModule(self._initEvaluable)
+                self._initEvaluable = MaskedModule(self._initEvaluable.copy())
             else:
-                self._initEvaluable = MaskedParameters(self._initEvaluable, returnZeros = True)   
+                self._initEvaluable = MaskedParameters(self._initEvaluable.copy(), returnZeros = True)   
     
      
-- 
2.43.0


From d58aada69c1c772309a130cb1cdfe7aa78060c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 085/174] fix: natural evolution strategies do not take an
 incomplete batch for a learning step

---
 pybrain/optimization/distributionbased/ves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 7672a36..c7d7bda 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -144,9 +144,9 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         """ Batch learning. """
         xdim = self.numParameters
         # produce samples and evaluate them
-        try:
-            self._produceSamples()
+        self._produceSamples()
 
+        try:
             # shape their fitnesses
             shapedFits = self.shapingFunction(self.allFitnesses[-self.batchSize:])
 
-- 
2.43.0


From 8dc6b8abf375ac16332f277f50442b7749cf47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 086/174] fix: noisy memetic search returns an evaluable with
 its own fitness

---
 pybrain/optimization/hillclimber.py     | 3 ++-
 pybrain/optimization/memetic/memetic.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/hillclimber.py b/pybrain/optimization/hillclimber.py
index 43c69a0..2b9edd2 100644
--- a/pybrain/optimization/hillclimber.py
+++ b/pybrain/optimization/hillclimber.py
@@ -17,7 +17,8 @@ class HillClimber(BlackBoxOptimizer):
         """ generate a new evaluable by mutation, compare them, and keep the best. """
         # re-evaluate the current individual in case the evaluator is noisy
         if self.evaluatorIsNoisy:
-            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
+            # (only evaluate: the outcome of a local search would belong to another point)
+            self.bestEvaluation = BlackBoxOptimizer._oneEvaluation(self, self.bestEvaluable)
 
         # hill-climbing
         challenger = self.bestEvaluable.copy()
diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index 907fa76..a670b03 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -64,6 +64,6 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
     @property
     def batchSize(self):
         if self.evaluatorIsNoisy:
-            return 2 * self.localSteps
+            return 1 + self.localSteps
         else:
             return self.localSteps
-- 
2.43.0


From 923548eeac9887e1d1a2f7f7297190ee84972f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:43 +0000
Subject: [PATCH 087/174] fix: a local search that diverges at once ends the
 memetic search like any other divergence

---
 pybrain/optimization/memetic/memetic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index a670b03..1efca21 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -2,6 +2,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
+from pybrain.utilities import DivergenceError
 from pybrain.optimization.optimizer import BlackBoxOptimizer, TopologyOptimizer
 from pybrain.optimization.hillclimber import HillClimber
 from pybrain.structure.evolvables.maskedparameters import MaskedParameters
@@ -45,6 +46,9 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
                 assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
                                                 '), because local search has a batch size of '+str(outsourced.batchSize)
                 _, fitness = outsourced.learn()
+                if fitness is None:
+                    # it diverged right away
+                    raise DivergenceError
             finally:
                 self.switchMutations()
             return fitness
-- 
2.43.0


From a1a609dc295b2fb1d74dfef000047fe6bd245417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:14 +0000
Subject: [PATCH 088/174] fix: linear connections compute the derivatives of
 their parameters

---
 pybrain/structure/connections/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/linear.py b/pybrain/structure/connections/linear.py
index 46f8559..8f89bb5 100644
--- a/pybrain/structure/connections/linear.py
+++ b/pybrain/structure/connections/linear.py
@@ -22,5 +22,6 @@ class LinearConnection(Connection, ParameterContainer):
         outbuf += inbuf * self.params
 
     def _backwardImplementation(self, outerr, inerr, inbuf):
-        #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
         inerr += outerr * self.params
+        ds = self.derivs
+        ds += inbuf * outerr
-- 
2.43.0


From 71b5988b71b02fc46cbf55f199230fe9410a52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:14 +0000
Subject: [PATCH 089/174] fix: the unused parameters of FullNotSelfConnections
 have no derivatives

---
 pybrain/structure/connections/fullnotself.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/fullnotself.py b/pybrain/structure/connections/fullnotself.py
index 4d81bb2..4c682fe 100644
--- a/pybrain/structure/connections/fullnotself.py
+++ b/pybrain/structure/connections/fullnotself.py
@@ -26,4 +26,4 @@ class FullNotSelfConnection(FullConnection):
         p = reshape(self.params, (self.outdim, self.indim)) * (1-eye(self.outdim))
         inerr += dot(p.T, outerr)
         ds = self.derivs
-        ds += outer(inbuf, outerr).T.flatten()
+        ds += (outer(inbuf, outerr).T * (1-eye(self.outdim))).flatten()
-- 
2.43.0


From 06805bf26d560f95cff13f883575069e79392b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 090/174] fix: buildNetwork without hidden layers

---
 pybrain/tools/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/shortcuts.py b/pybrain/tools/shortcuts.py
index 27edca2..26c53d8 100644
--- a/pybrain/tools/shortcuts.py
+++ b/pybrain/tools/shortcuts.py
@@ -100,7 +100,7 @@ def buildNetwork(*layers, **options):
         n.addConnection(FullConnection(n['hidden%i' % (len(layers) - 3)], n['out']))
 
     # recurrent connections
-    if issubclass(opt['hiddenclass'], LSTMLayer):
+    if issubclass(opt['hiddenclass'], LSTMLayer) and len(layers) > 2:
         if len(layers) > 3:
             errorexit("LSTM networks with > 1 hidden layers are not supported!")
         n.addRecurrentConnection(FullConnection(n['hidden0'], n['hidden0']))
-- 
2.43.0


From 8445345f34ab0809e6e2bce07d5c4ccaf2677acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:46 +0000
Subject: [PATCH 091/174] fix: permutation connections propagate errors back to
 where they came from

---
 pybrain/structure/connections/permutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index ed226a6..d3516e9 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -29,7 +29,7 @@ class PermutationConnection(Connection):
         # arguments for xml
         self.setArgs(permutation=[int(i) for i in permutation], blocksize=blocksize)
         self.permutation = array(permutation)
-        self.invpermutation = permute(list(range(len(permutation))), permutation)
+        self.invpermutation = self.permutation.argsort()
         self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
-- 
2.43.0


From e433ca51dd6917e2560acf2d779bbfe31f19436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:50 +0000
Subject: [PATCH 092/174] fix: buffers of a module that cannot be enlarged keep
 the same length

---
 pybrain/structure/modules/module.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pybrain/structure/modules/module.py b/pybrain/structure/modules/module.py
index 1272111..f09b589 100644
--- a/pybrain/structure/modules/module.py
+++ b/pybrain/structure/modules/module.py
@@ -60,14 +60,14 @@ class Module(Named):
     def _growBuffers(self):
         """Double the size of the modules buffers in its first dimension and
         keep the current values."""
-        currentlength = getattr(self, self.bufferlist[0][0]).shape[0]
-        # Save the current buffers
-        tmp = [getattr(self, n) for n, _ in self.bufferlist]
-        Module._resetBuffers(self, currentlength * 2)
-
-        for previous, (buffername, _dim) in zip(tmp, self.bufferlist):
-            buffer_ = getattr(self, buffername)
-            buffer_[:currentlength] = previous
+        grown = {}
+        for buffername, dim in self.bufferlist:
+            previous = getattr(self, buffername)
+            currentlength = previous.shape[0]
+            grown[buffername] = zeros((currentlength * 2, dim))
+            grown[buffername][:currentlength] = previous
+        # Replace all of them at once: an error before leaves them as they were.
+        self.__dict__.update(grown)
 
     def forward(self):
         """Produce the output from the input."""
-- 
2.43.0


From 0a0deca6242e4ba17f2b8453443589b7e54f9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:37 +0000
Subject: [PATCH 093/174] fix: a network refuses parameter vectors of the wrong
 size

---
 pybrain/structure/networks/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index 95ede45..0dbafd9 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -158,6 +158,7 @@ class Network(Module, ParameterContainer):
 
     def _setParameters(self, p, owner=None):
         """ put slices of this array back into the modules """
+        assert scipy.size(p) == self.paramdim
         ParameterContainer._setParameters(self, p, owner)
         index = 0
         for x in self._containerIterator():
-- 
2.43.0


From 6617b27f06b89d0ee87817d5ac1f590e8ed8adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:37 +0000
Subject: [PATCH 094/174] fix: sliced connections know which buffers their
 parameters belong to

---
 pybrain/structure/connections/full.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/full.py b/pybrain/structure/connections/full.py
index 98ca3f0..041f9cb 100644
--- a/pybrain/structure/connections/full.py
+++ b/pybrain/structure/connections/full.py
@@ -26,4 +26,5 @@ class FullConnection(Connection, ParameterContainer):
     def whichBuffers(self, paramIndex):
         """Return the index of the input module's output buffer and
         the output module's input buffer for the given weight."""
-        return paramIndex % self.inmod.outdim, paramIndex // self.inmod.outdim
+        return (self.inSliceFrom + paramIndex % self.indim,
+                self.outSliceFrom + paramIndex // self.indim)
-- 
2.43.0


From 86697b3cf67f31389072182aeeacafd814d6a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:37 +0000
Subject: [PATCH 095/174] fix: masked parameters that are shown with zeros are
 also set with them

---
 pybrain/structure/evolvables/maskedparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index af64a49..0a6cdc3 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -65,7 +65,7 @@ class MaskedParameters(TopologyEvolvable):
         paramcount = 0
         for i in range(len(self.maskableParams)):
             if self.mask[i] == True:
-                self.maskableParams[i] = x[paramcount]
+                self.maskableParams[i] = x[i] if self.returnZeros else x[paramcount]
                 paramcount += 1
         self._applyMask()
 
-- 
2.43.0


From 7a0e49934e3c42a5bbc7b5dadff2e3d4a8bbb8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:37 +0000
Subject: [PATCH 096/174] fix: a failing copy does not take the container away
 from a topology evolvable

---
 pybrain/structure/evolvables/topology.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pybrain/structure/evolvables/topology.py b/pybrain/structure/evolvables/topology.py
index e1e6016..dd14f3c 100644
--- a/pybrain/structure/evolvables/topology.py
+++ b/pybrain/structure/evolvables/topology.py
@@ -1,5 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
+from copy import copy
+
 from pybrain.utilities import abstractMethod
 from pybrain.structure.evolvables.evolvable import Evolvable
 from pybrain.structure.parametercontainer import ParameterContainer
@@ -35,9 +37,8 @@ class TopologyEvolvable(ParameterContainer):
     def copy(self):
         """ copy everything, except the pcontainer """
         # CHECKME: is this correct, or might it be misleading?
-        tmp = self.pcontainer
-        self.pcontainer = None
-        cp = Evolvable.copy(self)
-        cp.pcontainer = tmp
-        self.pcontainer = tmp
+        shallow = copy(self)
+        shallow.pcontainer = None
+        cp = Evolvable.copy(shallow)
+        cp.pcontainer = self.pcontainer
         return cp
\ No newline at end of file
-- 
2.43.0


From 88dcd93242805cb0ff8535d374a413d5d7739770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:27 +0000
Subject: [PATCH 097/174] fix: peephole weights belong to the neurons of their
 layer

---
 pybrain/structure/networks/neurondecomposable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/neurondecomposable.py b/pybrain/structure/networks/neurondecomposable.py
index 42fc0ed..8180b86 100644
--- a/pybrain/structure/networks/neurondecomposable.py
+++ b/pybrain/structure/networks/neurondecomposable.py
@@ -58,7 +58,8 @@ class NeuronDecomposableNetwork(object):
                                                (x.outmod, x.outmod.whichNeuron(inputIndex=outbuf)))
             elif isinstance(x, NeuronLayer):
                 for n in range(x.paramdim):
-                    self.paramInfo[index + n] = ((x, n), (x, n))
+                    neuron = (x, x.whichNeuron(inputIndex=n))
+                    self.paramInfo[index + n] = (neuron, neuron)
             else:
                 raise
             index += x.paramdim
-- 
2.43.0


From 3483317f28488f911e5b4bd8efe6d650b5d14dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 098/174] fix: trainUntilConvergence does at most maxEpochs
 epochs, and returns the errors up to the best one

---
 pybrain/supervised/trainers/backprop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b4c9f5f..1a32b3f 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -229,7 +229,8 @@ class BackpropTrainer(Trainer):
                 raise Exception("Training produced NaN results")
             self.trainingErrors.append(trainingError)
             self.validationErrors.append(validationError)
-            if epochs == 0 or self.validationErrors[-1] < bestverr:
+            epochs += 1
+            if epochs == 1 or self.validationErrors[-1] < bestverr:
                 # one update is always done
                 bestverr = self.validationErrors[-1]
                 bestweights = self.module.params.copy()
@@ -238,7 +239,6 @@ class BackpropTrainer(Trainer):
             if maxEpochs != None and epochs >= maxEpochs:
                 self.module.params[:] = bestweights
                 break
-            epochs += 1
 
             if len(self.validationErrors) >= continueEpochs * 2:
                 # have the validation errors started going up again?
-- 
2.43.0


From b5fda68b03015fb5466560ddb02d2c5adc69d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 099/174] fix: the trainer keeps its dataset when
 trainUntilConvergence fails

---
 pybrain/supervised/trainers/backprop.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index 1a32b3f..c14e9de 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -203,7 +203,6 @@ class BackpropTrainer(Trainer):
         If maxEpochs is given, at most that many epochs
         are trained. Each time validation error hits a minimum, try for
         continueEpochs epochs to find a better one."""
-        epochs = 0
         if dataset is None:
             dataset = self.ds
         if verbose is None:
@@ -216,7 +215,20 @@ class BackpropTrainer(Trainer):
         if not (len(trainingData) > 0 and len(validationData)):
             raise ValueError("Provided dataset too small to be split into training " +
                              "and validation sets with proportion " + str(validationProportion))
-        self.ds = trainingData
+        try:
+            self.ds = trainingData
+            bestepoch = self._trainUntilConvergence(validationData, maxEpochs, continueEpochs, convergence_threshold)
+        finally:
+            self.ds = dataset
+        if verbose:
+            print(('train-errors:', fListToString(self.trainingErrors, 6)))
+            print(('valid-errors:', fListToString(self.validationErrors, 6)))
+        return self.trainingErrors[:bestepoch], self.validationErrors[:1 + bestepoch]
+
+    def _trainUntilConvergence(self, validationData, maxEpochs, continueEpochs, convergence_threshold):
+        """Train on the current dataset until the errors on the validation data
+        converge, and return the number of epochs it took to the best one."""
+        epochs = 0
         bestweights = self.module.params.copy()
         bestverr = self.testOnData(validationData)
         bestepoch = 0
@@ -252,9 +264,4 @@ class BackpropTrainer(Trainer):
                 if sum(round(y, convergence_threshold) - lastnew for y in new) == 0:
                     self.module.params[:] = bestweights
                     break
-        #self.trainingErrors.append(self.testOnData(trainingData))
-        self.ds = dataset
-        if verbose:
-            print(('train-errors:', fListToString(self.trainingErrors, 6)))
-            print(('valid-errors:', fListToString(self.validationErrors, 6)))
-        return self.trainingErrors[:bestepoch], self.validationErrors[:1 + bestepoch]
+        return bestepoch
-- 
2.43.0


From ef3f39ab2434bf29a9c12fb44a5c1ea92d6e0595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:50 +0000
Subject: [PATCH 100/174] fix: weight decay also applies to batch learning

---
 pybrain/supervised/trainers/backprop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index c14e9de..b1c7e47 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -71,7 +71,8 @@ class BackpropTrainer(Trainer):
         if self.verbose:
             print("Total error: {z: .12g}".format(z=errors / ponderation))
         if self.batchlearning:
-            self.module._setParameters(self.descent(self.module.derivs))
+            gradient = self.module.derivs - self.weightdecay * self.module.params
+            self.module._setParameters(self.descent(gradient))
         self.epoch += 1
         self.totalepochs += 1
         return errors / ponderation
-- 
2.43.0


From 298f7fd8fe5925601df1f070bde6b9bc2beb4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:50 +0000
Subject: [PATCH 101/174] fix: RProp does not modify the gradient it is given

---
 pybrain/auxiliary/gradientdescent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index 4b8b0bb..dc4cdb2 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -2,7 +2,7 @@ __author__ = ('Thomas Rueckstiess, ruecksti@in.tum.de'
               'Justin Bayer, bayer.justin@googlemail.com')
 
 
-from scipy import zeros, asarray, sign, array, cov, dot, clip, ndarray
+from scipy import zeros, sign, array, cov, dot, clip, ndarray
 from scipy.linalg import inv
 
 
@@ -55,7 +55,7 @@ class GradientDescent(object):
         """ calculates parameter change based on given gradient and returns updated parameters """
         # check if gradient has correct dimensionality, then make array """
         assert len(gradient) == len(self.values)
-        gradient_arr = asarray(gradient)
+        gradient_arr = array(gradient)
 
         if self.rprop:
             rprop_theta = self.rprop_theta
-- 
2.43.0


From fe7b3087c96ecd40db2055a2d5f2a849f74ef734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:50 +0000
Subject: [PATCH 102/174] fix: a trainer does not keep a dataset that it
 refused

---
 pybrain/supervised/trainers/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/trainer.py b/pybrain/supervised/trainers/trainer.py
index c96b532..3356fae 100644
--- a/pybrain/supervised/trainers/trainer.py
+++ b/pybrain/supervised/trainers/trainer.py
@@ -17,10 +17,10 @@ class Trainer(Named):
 
     def setData(self, dataset):
         """Associate the given dataset with the trainer."""
-        self.ds = dataset
         if dataset:
             assert dataset.indim == self.module.indim
             assert dataset.outdim == self.module.outdim
+        self.ds = dataset
 
     def trainOnDataset(self, dataset, *args, **kwargs):
         """Set the dataset and train.
-- 
2.43.0


From b3924c8eb37cf86a2d1067ede7e09109f626d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:50 +0000
Subject: [PATCH 103/174] fix: samples with importance can be tested for their
 class

---
 pybrain/supervised/trainers/backprop.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b1c7e47..cf217f7 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -177,10 +177,11 @@ class BackpropTrainer(Trainer):
         targ = []
         for seq in dataset._provideSequences():
             self.module.reset()
-            for input, target in seq:
-                res = self.module.activate(input)
+            for sample in seq:
+                # samples may also have an importance
+                res = self.module.activate(sample[0])
                 out.append(argmax(res))
-                targ.append(argmax(target))
+                targ.append(argmax(sample[1]))
         if return_targets:
             return out, targ
         else:
-- 
2.43.0


From 4fa7047eea477be1c8eed364c21f544b3c35c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:05 +0000
Subject: [PATCH 104/174] fix: training continues from the current parameters
 of the module

---
 pybrain/supervised/trainers/backprop.py | 2 ++
 pybrain/supervised/trainers/rprop.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index cf217f7..8bfb008 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -50,6 +50,8 @@ class BackpropTrainer(Trainer):
     def train(self):
         """Train the associated module for one epoch."""
         assert len(self.ds) > 0, "Dataset cannot be empty."
+        # the parameters may have been changed since the last epoch
+        self.descent.values = self.module.params.copy()
         self.module.resetDerivatives()
         errors = 0
         ponderation = 0.
diff --git a/pybrain/supervised/trainers/rprop.py b/pybrain/supervised/trainers/rprop.py
index 885b0c8..c19f522 100644
--- a/pybrain/supervised/trainers/rprop.py
+++ b/pybrain/supervised/trainers/rprop.py
@@ -37,6 +37,8 @@ class RPropMinusTrainer(BackpropTrainer):
 
     def train(self):
         """ Train the network for one epoch """
+        # the parameters may have been changed since the last epoch
+        self.descent.values = self.module.params.copy()
         self.module.resetDerivatives()
         errors = 0
         ponderation = 0
-- 
2.43.0


From f51fd7f1548e30a027c6a79ddc5698eb25074986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:05 +0000
Subject: [PATCH 105/174] fix: RProp refuses an empty dataset before it changes
 anything

---
 pybrain/supervised/trainers/rprop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/supervised/trainers/rprop.py b/pybrain/supervised/trainers/rprop.py
index c19f522..108486b 100644
--- a/pybrain/supervised/trainers/rprop.py
+++ b/pybrain/supervised/trainers/rprop.py
@@ -37,6 +37,7 @@ class RPropMinusTrainer(BackpropTrainer):
 
     def train(self):
         """ Train the network for one epoch """
+        assert len(self.ds) > 0, "Dataset cannot be empty."
         # the parameters may have been changed since the last epoch
         self.descent.values = self.module.params.copy()
         self.module.resetDerivatives()
-- 
2.43.0


From 2acf471494d018cb817a2dceac7d7331d2282576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:09 +0000
Subject: [PATCH 106/174] fix: the Gaussians of a mixture are normalised in
 every dimension

---
 pybrain/supervised/trainers/mixturedensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/mixturedensity.py b/pybrain/supervised/trainers/mixturedensity.py
index 85214d7..10dadca 100644
--- a/pybrain/supervised/trainers/mixturedensity.py
+++ b/pybrain/supervised/trainers/mixturedensity.py
@@ -9,7 +9,7 @@ def gaussian(x, mean, stddev):
     """ return value of homogenous Gaussian at given vector point 
     x: vector, mean: vector, stddev: scalar """
     tmp = -0.5 * sum(((x-mean)/stddev)**2)
-    return np.exp(tmp) / (np.power(2.*np.pi, 0.5*len(x)) * stddev)
+    return np.exp(tmp) / (np.power(2.*np.pi, 0.5*len(x)) * np.power(stddev, len(x)))
     
 
 class BackpropTrainerMix(BackpropTrainer):
-- 
2.43.0


From da9dd262207491374e9512e49c7b8a665cb9df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:09 +0000
Subject: [PATCH 107/174] fix: mixture trainers follow the gradient of the
 standard deviations

---
 pybrain/supervised/trainers/mixturedensity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/supervised/trainers/mixturedensity.py b/pybrain/supervised/trainers/mixturedensity.py
index 10dadca..615fa1a 100644
--- a/pybrain/supervised/trainers/mixturedensity.py
+++ b/pybrain/supervised/trainers/mixturedensity.py
@@ -61,18 +61,18 @@ class BackpropTrainerMix(BackpropTrainer):
             gamma = np.array(gamma)/sumg
             
             invvariance = 1./par[nGauss:2*nGauss]**2
-            invstddev = 1./np.array(stddevs)
             
             # calculate gradient wrt. mixture coefficients
             grad_c = par[0:nGauss] - gamma
 
-            # calculate gradient wrt. standard deviations
+            # calculate gradient wrt. means, and wrt. the activations of the
+            # (exponential) standard deviations, Bishop 2006, Eqn. 5.156
             grad_m = []
             grad_s = []
             for k in range(nGauss):
                 delta = means[k]-target
                 grad_m.append(gamma[k]*delta*invvariance[k])
-                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k]*invstddev[k] - invstddev[k]))
+                grad_s.append(gamma[k]*(nDims - np.dot(delta,delta)*invvariance[k]))
             
             self.module.outputerror[time] = -np.r_[grad_c,grad_s,np.array(grad_m).flatten()]
             self.module.backward()
-- 
2.43.0


From 9da4ed834ecadca1eaabe07d25b57684eb317c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 108/174] fix: an interrupt during batch learning leaves the
 module with one set of parameters

---
 pybrain/supervised/trainers/backprop.py | 2 +-
 pybrain/supervised/trainers/rprop.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index 8bfb008..4812b13 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -74,7 +74,7 @@ class BackpropTrainer(Trainer):
             print("Total error: {z: .12g}".format(z=errors / ponderation))
         if self.batchlearning:
             gradient = self.module.derivs - self.weightdecay * self.module.params
-            self.module._setParameters(self.descent(gradient))
+            self.module.params[:] = self.descent(gradient)
         self.epoch += 1
         self.totalepochs += 1
         return errors / ponderation
diff --git a/pybrain/supervised/trainers/rprop.py b/pybrain/supervised/trainers/rprop.py
index 108486b..9ec389a 100644
--- a/pybrain/supervised/trainers/rprop.py
+++ b/pybrain/supervised/trainers/rprop.py
@@ -52,7 +52,7 @@ class RPropMinusTrainer(BackpropTrainer):
                 epoch=self.epoch,
                 error=errors / ponderation,
                 weight=sqrt((self.module.params ** 2).mean()))))
-        self.module._setParameters(self.descent(self.module.derivs - self.weightdecay * self.module.params))
+        self.module.params[:] = self.descent(self.module.derivs - self.weightdecay * self.module.params)
         self.epoch += 1
         self.totalepochs += 1
         return errors / ponderation
-- 
2.43.0


From 3682b12f1469494d867e5cfebefc2413713caf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:52 +0000
Subject: [PATCH 109/174] fix: UDP connections send and receive bytes

---
 pybrain/tools/networking/udpconnection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 4ab6c14..cdbe9bc 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -55,7 +55,7 @@ class UDPServer(object):
         if self.clients < 1:
             self.UDPInSock.settimeout(10)
             try:
-                cIP = self.UDPInSock.recv(self.buf)
+                cIP = self.UDPInSock.recv(self.buf).decode()
                 self.addClient(cIP)
             except:
                 pass
@@ -63,7 +63,7 @@ class UDPServer(object):
             # At least one client has to send a sign of life during 2 seconds
             self.UDPInSock.settimeout(2)
             try:
-                cIP = self.UDPInSock.recv(self.buf)
+                cIP = self.UDPInSock.recv(self.buf).decode()
                 newClient = True
                 for i in self.cIP:
                     if cIP == i:
@@ -86,7 +86,7 @@ class UDPServer(object):
         sendString = repr(arrayList)
         count = 0
         for i in self.UDPOutSockList:
-            i.sendto(sendString, self.addrList[count])
+            i.sendto(sendString.encode(), self.addrList[count])
             count += 1
 
 # The client class
@@ -107,11 +107,11 @@ class UDPClient(object):
     # Listen for data from server
     def listen(self, arrayList=None):
         # Send alive signal (own IP adress)
-        self.UDPOutSock.sendto(self.ownIP, self.outAddr)
+        self.UDPOutSock.sendto(self.ownIP.encode(), self.outAddr)
         # if there is no data from Server for 10 seconds server is propably down
         self.UDPInSock.settimeout(10)
         try:
-            data = self.UDPInSock.recv(self.buf)
+            data = self.UDPInSock.recv(self.buf).decode()
 
             try:
                 arrayList = eval(data)
@@ -129,7 +129,7 @@ class UDPClient(object):
     # Creating the sockets
     def createSockets(self):
         self.UDPOutSock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
-        self.UDPOutSock.sendto(self.ownIP, self.outAddr)
+        self.UDPOutSock.sendto(self.ownIP.encode(), self.outAddr)
         self.UDPInSock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
         self.UDPInSock.bind(self.inAddr)
 
-- 
2.43.0


From 098cb0e85ee986422932cc949efccb2e47cd887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 110/174] fix: sending while the clients disconnect

---
 pybrain/tools/networking/udpconnection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index cdbe9bc..825caff 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -84,10 +84,9 @@ class UDPServer(object):
     # Sending the actual data too all clients
     def send(self, arrayList):
         sendString = repr(arrayList)
-        count = 0
-        for i in self.UDPOutSockList:
-            i.sendto(sendString.encode(), self.addrList[count])
-            count += 1
+        # the lists can be replaced by a concurrent listen()
+        for sock, addr in zip(self.UDPOutSockList, self.addrList):
+            sock.sendto(sendString.encode(), addr)
 
 # The client class
 class UDPClient(object):
-- 
2.43.0


From 7caab0d9fcc0358fc3a35ed3092f279e7d79fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 111/174] fix: a client that cannot be reached does not keep
 the data from the other clients

---
 pybrain/tools/networking/udpconnection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 825caff..545a060 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -86,7 +86,11 @@ class UDPServer(object):
         sendString = repr(arrayList)
         # the lists can be replaced by a concurrent listen()
         for sock, addr in zip(self.UDPOutSockList, self.addrList):
-            sock.sendto(sendString.encode(), addr)
+            try:
+                sock.sendto(sendString.encode(), addr)
+            except socket.error as e:
+                # must not keep the data from the other clients
+                print(("Cannot send to", addr, e))
 
 # The client class
 class UDPClient(object):
-- 
2.43.0


From 2f92a55dd402c5a7fedc8a26d3b1917f20f36717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 112/174] fix: UDP server does not take garbage for the
 disconnection of all clients, nor swallow interrupts

---
 pybrain/tools/networking/udpconnection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 545a060..98b75f4 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -57,7 +57,7 @@ class UDPServer(object):
             try:
                 cIP = self.UDPInSock.recv(self.buf).decode()
                 self.addClient(cIP)
-            except:
+            except (socket.error, UnicodeError):
                 pass
         else:
             # At least one client has to send a sign of life during 2 seconds
@@ -72,7 +72,10 @@ class UDPServer(object):
                 #Adding new client
                 if newClient:
                     self.addClient(cIP)
-            except:
+            except UnicodeError:
+                # not a sign of life
+                pass
+            except socket.error:
                 print("All clients disconnected")
                 self.clients = 0
                 self.cIP = []
-- 
2.43.0


From b6882973d867f852def41541e78016f3bb42a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 113/174] fix: UDP clients receive arrays, exactly and
 completely

---
 pybrain/tools/networking/udpconnection.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 98b75f4..d811164 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -20,6 +20,20 @@ __author__ = 'Frank Sehnke, sehnke@in.tum.de'
 #############################################################################################################
 
 import socket
+from scipy import array, ndarray
+
+def _format(data):
+    """ The complete representation of the data (that of a numpy array is abbreviated and rounded) """
+    if isinstance(data, ndarray):
+        return 'array(%r)' % (data.tolist(),)
+    elif type(data) is list:
+        return '[%s]' % ', '.join([_format(d) for d in data])
+    elif type(data) is tuple:
+        return '(%s)' % ''.join([_format(d) + ', ' for d in data])
+    return repr(data)
+
+# Everything that can appear in such a representation
+_names = {'__builtins__': {}, 'array': array, 'nan': float('nan'), 'inf': float('inf')}
 
 # The server class
 class UDPServer(object):
@@ -86,7 +100,7 @@ class UDPServer(object):
 
     # Sending the actual data too all clients
     def send(self, arrayList):
-        sendString = repr(arrayList)
+        sendString = _format(arrayList)
         # the lists can be replaced by a concurrent listen()
         for sock, addr in zip(self.UDPOutSockList, self.addrList):
             try:
@@ -120,7 +134,7 @@ class UDPClient(object):
             data = self.UDPInSock.recv(self.buf).decode()
 
             try:
-                arrayList = eval(data)
+                arrayList = eval(data, dict(_names))
                 return arrayList
             except:
                 print(("Unsupported data format received from", self.outAddr, "!"))
-- 
2.43.0


From d652692b330fdcb85a02b60c8092a011559a7729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 114/174] fix: UDP client survives failing sends, and does not
 swallow interrupts

---
 pybrain/tools/networking/udpconnection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index d811164..fb96bd8 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -126,21 +126,21 @@ class UDPClient(object):
 
     # Listen for data from server
     def listen(self, arrayList=None):
-        # Send alive signal (own IP adress)
-        self.UDPOutSock.sendto(self.ownIP.encode(), self.outAddr)
         # if there is no data from Server for 10 seconds server is propably down
         self.UDPInSock.settimeout(10)
         try:
-            data = self.UDPInSock.recv(self.buf).decode()
+            # Send alive signal (own IP adress)
+            self.UDPOutSock.sendto(self.ownIP.encode(), self.outAddr)
+            data = self.UDPInSock.recv(self.buf)
 
             try:
-                arrayList = eval(data, dict(_names))
+                arrayList = eval(data.decode(), dict(_names))
                 return arrayList
-            except:
+            except Exception:
                 print(("Unsupported data format received from", self.outAddr, "!"))
                 return None
 
-        except:
+        except socket.error:
             print("Server has quit!")
             return None
             # Try to recreate sockets
-- 
2.43.0


From 10142babc5544e13065c2220a1bb15df4bab28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 115/174] fix: empty arrays keep their shape on the way to UDP
 clients

---
 pybrain/tools/networking/udpconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index fb96bd8..5ec0524 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -25,7 +25,7 @@ from scipy import array, ndarray
 def _format(data):
     """ The complete representation of the data (that of a numpy array is abbreviated and rounded) """
     if isinstance(data, ndarray):
-        return 'array(%r)' % (data.tolist(),)
+        return 'array(%r).reshape(%r)' % (data.tolist(), data.shape)
     elif type(data) is list:
         return '[%s]' % ', '.join([_format(d) for d in data])
     elif type(data) is tuple:
-- 
2.43.0


From 06441110950131d8ece0e8abef58dfbfd30a6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 116/174] fix: a UDP client with an invalid name does not keep
 the data from the other clients

---
 pybrain/tools/networking/udpconnection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 5ec0524..23abf43 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -105,7 +105,8 @@ class UDPServer(object):
         for sock, addr in zip(self.UDPOutSockList, self.addrList):
             try:
                 sock.sendto(sendString.encode(), addr)
-            except socket.error as e:
+            except Exception as e:
+                # (names that are not even valid raise other errors)
                 # must not keep the data from the other clients
                 print(("Cannot send to", addr, e))
 
-- 
2.43.0


From 07fb86cff24b6c7a2dd7465b8c0be0a1a095f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 117/174] fix: a failing update of the viewers does not prevent
 all further updates

---
 .../rl/environments/flexcube/environment.py    | 18 ++++++++++--------
 pybrain/rl/environments/shipsteer/shipsteer.py | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/pybrain/rl/environments/flexcube/environment.py b/pybrain/rl/environments/flexcube/environment.py
index 27c9631..a38b7bb 100644
--- a/pybrain/rl/environments/flexcube/environment.py
+++ b/pybrain/rl/environments/flexcube/environment.py
@@ -156,12 +156,14 @@ class FlexCubeEnvironment(Environment):
         self.updateDone = False
         if not self.updateLock.acquire(False): return
 
-        # Listen for clients
-        self.server.listen()
-        if self.server.clients > 0:
-            # If there are clients send them the new data
-            self.server.send(repr([self.pos, self.centerOfGrav]))
-        sleep(0.02)
-        self.updateLock.release()
-        self.updateDone = True
+        try:
+            # Listen for clients
+            self.server.listen()
+            if self.server.clients > 0:
+                # If there are clients send them the new data
+                self.server.send(repr([self.pos, self.centerOfGrav]))
+            sleep(0.02)
+        finally:
+            self.updateLock.release()
+            self.updateDone = True
 
diff --git a/pybrain/rl/environments/shipsteer/shipsteer.py b/pybrain/rl/environments/shipsteer/shipsteer.py
index c3619cb..1cbabaf 100644
--- a/pybrain/rl/environments/shipsteer/shipsteer.py
+++ b/pybrain/rl/environments/shipsteer/shipsteer.py
@@ -109,14 +109,16 @@ class ShipSteeringEnvironment(Environment):
         self.updateDone = False
         if not self.updateLock.acquire(False): return
 
-        # Listen for clients
-        self.server.listen()
-        if self.server.clients > 0:
-            # If there are clients send them the new data
-            self.server.send(self.sensors)
-        sleep(0.02)
-        self.updateLock.release()
-        self.updateDone = True
+        try:
+            # Listen for clients
+            self.server.listen()
+            if self.server.clients > 0:
+                # If there are clients send them the new data
+                self.server.send(self.sensors)
+            sleep(0.02)
+        finally:
+            self.updateLock.release()
+            self.updateDone = True
 
     @property
     def indim(self):
-- 
2.43.0


From 2c358266f6e4f234c040639bfa4c49f079632996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 118/174] fix: the ship viewer survives when it receives
 nothing

---
 pybrain/rl/environments/shipsteer/viewer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/shipsteer/viewer.py b/pybrain/rl/environments/shipsteer/viewer.py
index 9af6f99..82829a5 100644
--- a/pybrain/rl/environments/shipsteer/viewer.py
+++ b/pybrain/rl/environments/shipsteer/viewer.py
@@ -88,8 +88,9 @@ class FlexCubeRenderer(object):
     # The Glut idle function
     def drawIdleScene(self):
         #recive data from server and update the points of the cube
-        try: self.sensors = self.client.listen(self.sensors)
-        except: pass
+        sensors = self.client.listen(self.sensors)
+        # (None: nothing was received)
+        if sensors is not None: self.sensors = sensors
         if self.sensors == ["r", "r", "r"]: self.centerOfGrav = array([0.0, 5.0, 0.0])
         else:
             self.step += 1
-- 
2.43.0


From 21e2484747b2208ee771bff82f6caf9840d7e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 119/174] fix: resetting the flexcube also resets its center of
 gravity

---
 pybrain/rl/environments/flexcube/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/flexcube/environment.py b/pybrain/rl/environments/flexcube/environment.py
index a38b7bb..12b247d 100644
--- a/pybrain/rl/environments/flexcube/environment.py
+++ b/pybrain/rl/environments/flexcube/environment.py
@@ -70,6 +70,7 @@ class FlexCubeEnvironment(Environment):
                 for k in range(2):
                     self.pos[i * 4 + j * 2 + k] = [i * self.dists[0] - self.dists[0] / 2.0, j * self.dists[0] - self.dists[0] / 2.0 + self.startHight, k * self.dists[0] - self.dists[0] / 2.0]
         self.vel = zeros((8, 3), float)
+        self.centerOfGrav = self.pos.sum(axis=0) / 8.0
 
         idx0 = arange(8).repeat(8)
         idx1 = array(list(range(8)) * 8)
-- 
2.43.0


From 021cc425e1905e9d27a6fa20bf5ea720abf4911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 120/174] fix: flexcube viewers show only complete states, and
 resets

---
 pybrain/rl/environments/flexcube/environment.py | 5 ++++-
 pybrain/rl/environments/flexcube/viewer.py      | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/flexcube/environment.py b/pybrain/rl/environments/flexcube/environment.py
index 12b247d..af71a86 100644
--- a/pybrain/rl/environments/flexcube/environment.py
+++ b/pybrain/rl/environments/flexcube/environment.py
@@ -78,6 +78,8 @@ class FlexCubeEnvironment(Environment):
         self.springM = sqrt((self.difM ** 2).sum(axis=1)).reshape(64, 1)
         self.distM = self.springM.copy() #distance matrix
         self.step = 0
+        # what the viewers are shown (by another thread)
+        self.frame = [self.pos.copy(), self.centerOfGrav]
         self.mySensors.updateSensor(self.pos, self.vel, self.distM, self.centerOfGrav, self.step, self.action)
         if self.render:
             if self.server.clients > 0:
@@ -145,6 +147,7 @@ class FlexCubeEnvironment(Environment):
                 self.pos[i][1] = 0.0
                 self.vel[i] = self.vel[i] * [0.0, -1.0, 0.0]
         self.centerOfGrav = self.pos.sum(axis=0) / 8.0
+        self.frame = [self.pos.copy(), self.centerOfGrav]
 
         #Distances of new state
         idx0 = arange(8).repeat(8)
@@ -162,7 +165,7 @@ class FlexCubeEnvironment(Environment):
             self.server.listen()
             if self.server.clients > 0:
                 # If there are clients send them the new data
-                self.server.send(repr([self.pos, self.centerOfGrav]))
+                self.server.send(self.frame)
             sleep(0.02)
         finally:
             self.updateLock.release()
diff --git a/pybrain/rl/environments/flexcube/viewer.py b/pybrain/rl/environments/flexcube/viewer.py
index dc8cf6e..9f9805f 100644
--- a/pybrain/rl/environments/flexcube/viewer.py
+++ b/pybrain/rl/environments/flexcube/viewer.py
@@ -90,9 +90,9 @@ class FlexCubeRenderer(object):
     def drawIdleScene(self):
         #recive data from server and update the points of the cube
         try:
-            self.points, self.centerOfGrav = eval(self.client.listen([self.points, self.centerOfGrav]))
-        except: pass
-        if self.points == "r":
+            self.points, self.centerOfGrav = self.client.listen([self.points, self.centerOfGrav])
+        except (TypeError, ValueError): pass # nothing (useful) was received
+        if str(self.points) == "r":
             self.target = array([80.0, 0.0, 0.0])
             self.centerOfGrav = array([0.0, -2.0, 0.0])
             self.points = ones((8, 3), float)
-- 
2.43.0


From d8043528b3693705ce4ca650fb5ac71078c47a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 121/174] fix: UDP clients do not execute what they receive

---
 pybrain/tools/networking/udpconnection.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 23abf43..55922a8 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -19,6 +19,7 @@ __author__ = 'Frank Sehnke, sehnke@in.tum.de'
 #                                                                                                           #
 #############################################################################################################
 
+import ast
 import socket
 from scipy import array, ndarray
 
@@ -32,8 +33,21 @@ def _format(data):
         return '(%s)' % ''.join([_format(d) + ', ' for d in data])
     return repr(data)
 
-# Everything that can appear in such a representation
-_names = {'__builtins__': {}, 'array': array, 'nan': float('nan'), 'inf': float('inf')}
+def _parse(node):
+    """ The data that is represented by a (parsed) expression. Nothing is executed. """
+    if isinstance(node, ast.List):
+        return [_parse(n) for n in node.elts]
+    elif isinstance(node, ast.Tuple):
+        return tuple([_parse(n) for n in node.elts])
+    elif isinstance(node, ast.Name) and node.id in ('nan', 'inf'):
+        return float(node.id)
+    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
+        return -_parse(node.operand)
+    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'array':
+        return array(_parse(node.args[0]))
+    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'reshape':
+        return _parse(node.func.value).reshape(_parse(node.args[0]))
+    return ast.literal_eval(node)
 
 # The server class
 class UDPServer(object):
@@ -135,7 +149,7 @@ class UDPClient(object):
             data = self.UDPInSock.recv(self.buf)
 
             try:
-                arrayList = eval(data.decode(), dict(_names))
+                arrayList = _parse(ast.parse(data.decode(), mode='eval').body)
                 return arrayList
             except Exception:
                 print(("Unsupported data format received from", self.outAddr, "!"))
-- 
2.43.0


From 4857db6cb55010964f8b8d308b8e21e3896250f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:17 +0000
Subject: [PATCH 122/174] fix: the signs of life of many UDP clients do not
 keep others from connecting

---
 pybrain/tools/networking/udpconnection.py | 40 ++++++++++++++---------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pybrain/tools/networking/udpconnection.py b/pybrain/tools/networking/udpconnection.py
index 55922a8..c95bfc0 100644
--- a/pybrain/tools/networking/udpconnection.py
+++ b/pybrain/tools/networking/udpconnection.py
@@ -78,31 +78,30 @@ class UDPServer(object):
         print(("client", cIP, "connected"))
         self.clients += 1
 
+    # Receive the sign of life of one client
+    def receive(self):
+        try:
+            cIP = self.UDPInSock.recv(self.buf).decode()
+        except UnicodeError:
+            # not a sign of life
+            return
+        #Adding new client
+        if cIP not in self.cIP:
+            self.addClient(cIP)
+
     # Listen for clients
     def listen(self):
         if self.clients < 1:
             self.UDPInSock.settimeout(10)
             try:
-                cIP = self.UDPInSock.recv(self.buf).decode()
-                self.addClient(cIP)
-            except (socket.error, UnicodeError):
-                pass
+                self.receive()
+            except socket.error:
+                return
         else:
             # At least one client has to send a sign of life during 2 seconds
             self.UDPInSock.settimeout(2)
             try:
-                cIP = self.UDPInSock.recv(self.buf).decode()
-                newClient = True
-                for i in self.cIP:
-                    if cIP == i:
-                        newClient = False
-                        break
-                #Adding new client
-                if newClient:
-                    self.addClient(cIP)
-            except UnicodeError:
-                # not a sign of life
-                pass
+                self.receive()
             except socket.error:
                 print("All clients disconnected")
                 self.clients = 0
@@ -110,6 +109,15 @@ class UDPServer(object):
                 self.addrList = []
                 self.UDPOutSockList = []
                 print(("listening on port", self.inPort))
+                return
+        # Signs of life that arrived in the meantime, which must not pile up:
+        # there would be no room for those of other clients
+        self.UDPInSock.settimeout(0)
+        try:
+            for _ in range(100):
+                self.receive()
+        except socket.error:
+            pass
 
 
     # Sending the actual data too all clients
-- 
2.43.0


From 9393f7a8980fa7819839ae9cdf3eaa65b3b3b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:44 +0000
Subject: [PATCH 123/174] fix: the simplerace client understands what it
 receives, whole lines, and notices when the server is gone

---
 .../environments/simplerace/simpleracetcp.py   | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/simplerace/simpleracetcp.py b/pybrain/rl/environments/simplerace/simpleracetcp.py
index 215287f..3e0c51a 100644
--- a/pybrain/rl/environments/simplerace/simpleracetcp.py
+++ b/pybrain/rl/environments/simplerace/simpleracetcp.py
@@ -5,7 +5,6 @@ __author__ = 'Julian Togelius, julian@idsia.ch'
 from pybrain.rl.environments import Environment
 from math import sqrt
 import socket
-import string
 from scipy import zeros
 
 class SimpleraceEnvironment(Environment):
@@ -21,6 +20,7 @@ class SimpleraceEnvironment(Environment):
     def __init__(self, host="127.0.0.1", port=6524):
         self.theSocket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         self.theSocket.connect((host, port))
+        self.received = ""
         self.step = 0
         print("Connected to a simplerace server")
         self.reset()
@@ -57,15 +57,15 @@ class SimpleraceEnvironment(Environment):
             print('Waiting one step')
             self.waitOne = False
         elif self.serverIsReady:
-            self.theSocket.send (str(command) + "\n")
+            self.theSocket.sendall ((str(command) + "\n").encode())
         else:
             print("not sending")
         # get and process the answer
         data = ""
         while len (data) < 2:
-            data = self.theSocket.recv(1000)
+            data = self.receiveLine()
         #print("received", data)
-        inputs = string.split(str(data), " ")
+        inputs = data.split(" ")
         if (inputs[0][:5] == "reset"):
             print("Should we reset the scores here?")
             self.reset ()
@@ -99,6 +99,16 @@ class SimpleraceEnvironment(Environment):
         else:
             print(("incomprehensible and thus roundly ignored", data))
 
+    def receiveLine(self):
+        # a line can arrive in pieces, or together with others
+        while "\n" not in self.received:
+            data = self.theSocket.recv(1000)
+            if not data:
+                raise IOError("The simplerace server closed the connection.")
+            self.received += data.decode()
+        line, self.received = self.received.split("\n", 1)
+        return line.strip()
+
     def reset(self):
         self.step = 0
         self.firstCarScore = 0
-- 
2.43.0


From 7a734c1eabc8595a6bd60879337f91d7715ea717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:44 +0000
Subject: [PATCH 124/174] fix: the capture game client understands what it
 receives, complete answers, and notices when the server is gone

---
 .../capturegameplayers/clientwrapper.py       | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegameplayers/clientwrapper.py b/pybrain/rl/environments/twoplayergames/capturegameplayers/clientwrapper.py
index 2485708..5c61974 100644
--- a/pybrain/rl/environments/twoplayergames/capturegameplayers/clientwrapper.py
+++ b/pybrain/rl/environments/twoplayergames/capturegameplayers/clientwrapper.py
@@ -31,14 +31,21 @@ class ClientCapturePlayer(CapturePlayer):
             print('Failed to connect')
 
         #define player
-        self.theSocket.send(player + '-' + str(color) + '\n')
+        self.theSocket.sendall((player + '-' + str(color) + '\n').encode())
         if self.verbose:
             print(('Sending:', player + '-' + str(color)))
-        accept = ""
-        while len (accept) < 2:
-            accept = self.theSocket.recv(1000)
-        assert accept == 'OK'
+        assert self._receive(('OK',)) == 'OK'
 
+    def _receive(self, ends):
+        """ Receive an answer, which can arrive in pieces. It is complete with the
+        end of the line, or one of the given ends. """
+        answer = ""
+        while len(answer.strip()) < 2 or not answer.endswith(('\n',) + ends):
+            data = self.theSocket.recv(1000)
+            if not data:
+                raise IOError('The server closed the connection.')
+            answer += data.decode()
+        return answer.strip()
 
     def getAction(self):
         # build a java string
@@ -59,14 +66,10 @@ class ClientCapturePlayer(CapturePlayer):
         # get the suggested move from the java player:
         if self.verbose:
             print(('Sending:', js))
-        self.theSocket.send(js + '\n')
-        jr = ""
+        self.theSocket.sendall((js + '\n').encode())
         if self.verbose:
             print(('Waiting for server',))
-        while len (jr) < 2:
-            jr = self.theSocket.recv(1000)
-            if self.verbose:
-                print(('.',))
+        jr = self._receive((')',))
         if self.verbose:
             print((" received.", jr))
 
-- 
2.43.0


From 4e0b8da5920a79c17fa95fd433a173b46d58ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 125/174] fix: renderers can be started (Thread.isAlive is gone
 from Python 3.9)

---
 pybrain/rl/environments/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/renderer.py b/pybrain/rl/environments/renderer.py
index 761e1f9..b1a6ca2 100644
--- a/pybrain/rl/environments/renderer.py
+++ b/pybrain/rl/environments/renderer.py
@@ -26,7 +26,7 @@ class Renderer(threading.Thread):
 
     def start(self):
         """ wrapper for Thread.start(). only calls start if thread has not been started before. """
-        if not self.isAlive():
+        if not self.is_alive():
             threading.Thread.start(self)
 
     def run(self):
-- 
2.43.0


From 305a828be9770e20707c26ae6453d155c65037f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 126/174] fix: a renderer that fails does not block the
 environment forever

---
 pybrain/rl/environments/cartpole/renderer.py |  5 +--
 pybrain/rl/environments/simple/renderer.py   | 41 +++++++++-----------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/renderer.py b/pybrain/rl/environments/cartpole/renderer.py
index 298e372..47cd623 100644
--- a/pybrain/rl/environments/cartpole/renderer.py
+++ b/pybrain/rl/environments/cartpole/renderer.py
@@ -27,9 +27,8 @@ class CartPoleRenderer(Renderer):
         self.pole = None
 
     def updateData(self, data):
-        self.dataLock.acquire()
-        (self.angle, self.angle_vel, self.pos, self.pos_vel) = data
-        self.dataLock.release()
+        with self.dataLock:
+            (self.angle, self.angle_vel, self.pos, self.pos_vel) = data
 
     def stop(self):
         self.stopRequest = True
diff --git a/pybrain/rl/environments/simple/renderer.py b/pybrain/rl/environments/simple/renderer.py
index 9d9925e..1a34847 100644
--- a/pybrain/rl/environments/simple/renderer.py
+++ b/pybrain/rl/environments/simple/renderer.py
@@ -21,29 +21,25 @@ class SimpleRenderer(Renderer):
         self.color = 'red'
 
     def setFunction(self, f, rmin, rmax):
-        self.dataLock.acquire()
-        self.f = f
-        self.min = rmin
-        self.max = rmax
-        self.dataLock.release()
+        with self.dataLock:
+            self.f = f
+            self.min = rmin
+            self.max = rmax
 
     def updateData(self, data):
-        self.dataLock.acquire()
-        (x, y) = data
-        self.pathx.append(x)
-        self.pathy.append(y)
-        self.dataLock.release()
+        with self.dataLock:
+            (x, y) = data
+            self.pathx.append(x)
+            self.pathy.append(y)
 
     def reset(self):
-        self.dataLock.acquire()
-        self.pathx = []
-        self.pathy = []
-        self.dataLock.release()
+        with self.dataLock:
+            self.pathx = []
+            self.pathy = []
 
     def stop(self):
-        self.dataLock.acquire()
-        self.stopRequest = True
-        self.dataLock.release()
+        with self.dataLock:
+            self.stopRequest = True
 
     def start(self):
         self.drawPlot()
@@ -70,12 +66,11 @@ class SimpleRenderer(Renderer):
 
     def _render(self):
         while not self.stopRequest:
-            self.dataLock.acquire()
-            self.line.set_data(self.pathx, self.pathy)
-            self.line.set_color(self.color)
-            figure(self.fig.number)
-            draw()
-            self.dataLock.release()
+            with self.dataLock:
+                self.line.set_data(self.pathx, self.pathy)
+                self.line.set_color(self.color)
+                figure(self.fig.number)
+                draw()
 
             time.sleep(0.05)
         self.stopRequest = False
-- 
2.43.0


From c1dd37bb8b2f8ec26f6c34a1e5e2067f336c8e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 127/174] fix: the cart pole renderer does not draw mixtures of
 two states

---
 pybrain/rl/environments/cartpole/renderer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/renderer.py b/pybrain/rl/environments/cartpole/renderer.py
index 47cd623..b8cc7e5 100644
--- a/pybrain/rl/environments/cartpole/renderer.py
+++ b/pybrain/rl/environments/cartpole/renderer.py
@@ -57,14 +57,15 @@ class CartPoleRenderer(Renderer):
 
     def _render(self):
         while not self.stopRequest:
-            if self.angle < 0.05 and abs(self.pos) < 0.05:
-                self.box.set_facecolor('green')
-            else:
-                self.box.set_facecolor('blue')
+            with self.dataLock:
+                if self.angle < 0.05 and abs(self.pos) < 0.05:
+                    self.box.set_facecolor('green')
+                else:
+                    self.box.set_facecolor('blue')
 
-            self.box.set_x(self.pos - self.cartwidth / 2.0)
-            self.pole.set_xdata([self.pos, self.pos + self.polelength * sin(self.angle)])
-            self.pole.set_ydata([0, self.polelength * cos(self.angle)])
+                self.box.set_x(self.pos - self.cartwidth / 2.0)
+                self.pole.set_xdata([self.pos, self.pos + self.polelength * sin(self.angle)])
+                self.pole.set_ydata([0, self.polelength * cos(self.angle)])
             draw()
             time.sleep(0.05)
         self.stopRequest = False
-- 
2.43.0


From ddb0f60ba60cbc1d764938d1e7a79d030a45986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 128/174] fix: the cart pole renderer shows a pole as balanced
 only if it is, on both sides

---
 pybrain/rl/environments/cartpole/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/renderer.py b/pybrain/rl/environments/cartpole/renderer.py
index b8cc7e5..82c4548 100644
--- a/pybrain/rl/environments/cartpole/renderer.py
+++ b/pybrain/rl/environments/cartpole/renderer.py
@@ -58,7 +58,7 @@ class CartPoleRenderer(Renderer):
     def _render(self):
         while not self.stopRequest:
             with self.dataLock:
-                if self.angle < 0.05 and abs(self.pos) < 0.05:
+                if abs(self.angle) < 0.05 and abs(self.pos) < 0.05:
                     self.box.set_facecolor('green')
                 else:
                     self.box.set_facecolor('blue')
-- 
2.43.0


From 5585e64668f8178af13c4c23c92912133ce7e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 129/174] fix: starting a renderer draws one state, once

---
 pybrain/rl/environments/cartpole/renderer.py | 6 ++++--
 pybrain/rl/environments/simple/renderer.py   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/renderer.py b/pybrain/rl/environments/cartpole/renderer.py
index 82c4548..480e79b 100644
--- a/pybrain/rl/environments/cartpole/renderer.py
+++ b/pybrain/rl/environments/cartpole/renderer.py
@@ -34,7 +34,9 @@ class CartPoleRenderer(Renderer):
         self.stopRequest = True
 
     def start(self):
-        self.drawPlot()
+        if not self.is_alive():
+            with self.dataLock:
+                self.drawPlot()
         Renderer.start(self)
 
     def drawPlot(self):
@@ -47,7 +49,7 @@ class CartPoleRenderer(Renderer):
         self.box.set_clip_box(axes.bbox)
 
         # draw pole
-        self.pole = Line2D([self.pos, self.pos + sin(self.angle)], [0, cos(self.angle)], linewidth=3, color='black')
+        self.pole = Line2D([self.pos, self.pos + self.polelength * sin(self.angle)], [0, self.polelength * cos(self.angle)], linewidth=3, color='black')
         axes.add_artist(self.pole)
         self.pole.set_clip_box(axes.bbox)
 
diff --git a/pybrain/rl/environments/simple/renderer.py b/pybrain/rl/environments/simple/renderer.py
index 1a34847..a826990 100644
--- a/pybrain/rl/environments/simple/renderer.py
+++ b/pybrain/rl/environments/simple/renderer.py
@@ -42,7 +42,8 @@ class SimpleRenderer(Renderer):
             self.stopRequest = True
 
     def start(self):
-        self.drawPlot()
+        if not self.is_alive():
+            self.drawPlot()
         Renderer.start(self)
 
     def drawPlot(self):
-- 
2.43.0


From 85f9ecfef7c62086405e26657ecad617fa04251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 130/174] fix: the cart position of the non-Markov pole is not
 its angular velocity

---
 pybrain/rl/environments/cartpole/nonmarkovpole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/nonmarkovpole.py b/pybrain/rl/environments/cartpole/nonmarkovpole.py
index 301a592..36f3e2b 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovpole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovpole.py
@@ -19,6 +19,6 @@ class NonMarkovPoleEnvironment(CartPoleEnvironment):
 
     def getCartPosition(self):
         """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[1]
+        return self.sensors[2]
 
 
-- 
2.43.0


From 1952568948bc6bfa5d8bc8d42cf30cd24e59a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 131/174] fix: angles and position of the non-Markov double
 pole are those of the double pole

---
 .../rl/environments/cartpole/nonmarkovdoublepole.py    | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
index 6011946..8db529a 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
@@ -17,13 +17,3 @@ class NonMarkovDoublePoleEnvironment(DoublePoleEnvironment, NonMarkovPoleEnviron
         """
         tmp = DoublePoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2], tmp[4])
-
-    def getPoleAngles(self):
-        """ auxiliary access to just the pole angle(s), to be used by BalanceTask """
-        return [self.sensors[0], self.sensors[1]]
-
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[2]
-
-
-- 
2.43.0


From a0b647496b7e3c68bd109c88cb833ca0dff2ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 132/174] fix: the double pole has six sensors

---
 pybrain/rl/environments/cartpole/doublepole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/doublepole.py b/pybrain/rl/environments/cartpole/doublepole.py
index ed6409a..e5c1415 100644
--- a/pybrain/rl/environments/cartpole/doublepole.py
+++ b/pybrain/rl/environments/cartpole/doublepole.py
@@ -8,7 +8,7 @@ class DoublePoleEnvironment(Environment):
     """ two poles to be balanced from the same cart. """
 
     indim = 1
-    ooutdim = 6
+    outdim = 6
 
     def __init__(self):
         self.p1 = CartPoleEnvironment()
-- 
2.43.0


From 29bb8265ad5caa3d155c7870105e690705966eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 133/174] fix: reward and end of double pole episodes refer to
 the current state

---
 pybrain/rl/environments/cartpole/doublepole.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/rl/environments/cartpole/doublepole.py b/pybrain/rl/environments/cartpole/doublepole.py
index e5c1415..0809098 100644
--- a/pybrain/rl/environments/cartpole/doublepole.py
+++ b/pybrain/rl/environments/cartpole/doublepole.py
@@ -42,6 +42,8 @@ class DoublePoleEnvironment(Environment):
         """
         self.p1.performAction(action)
         self.p2.performAction(action)
+        # the accessors for tasks refer to the new state
+        DoublePoleEnvironment.getSensors(self)
 
     def getCartPosition(self):
         """ auxiliary access to just the cart position, to be used by BalanceTask """
-- 
2.43.0


From b629b6ee0406f39126344353da9f3c5ff77f55d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 134/174] fix: looking at the sensors of a SimpleEnvironment
 does not repeat the action

---
 pybrain/rl/environments/simple/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/simple/environment.py b/pybrain/rl/environments/simple/environment.py
index 79fad9f..72c4c1e 100644
--- a/pybrain/rl/environments/simple/environment.py
+++ b/pybrain/rl/environments/simple/environment.py
@@ -29,6 +29,7 @@ class SimpleEnvironment(Environment):
         self.state = [s + 0.1 * a for s, a in zip(self.state, self.action)]
         if self.noise:
             self.state = self.state + random.normal(0, self.noise, self.dim)
+        self.updated = True
 
     def f(self, x):
         return [v ** 2 for v in x]
-- 
2.43.0


From 5db01abc09acb837644d0ee2a3da50baefbdc6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 135/174] fix: every action on a SimpleEnvironment takes effect

---
 pybrain/rl/environments/simple/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/rl/environments/simple/environment.py b/pybrain/rl/environments/simple/environment.py
index 72c4c1e..d43064d 100644
--- a/pybrain/rl/environments/simple/environment.py
+++ b/pybrain/rl/environments/simple/environment.py
@@ -22,6 +22,9 @@ class SimpleEnvironment(Environment):
         return self.state
 
     def performAction(self, action):
+        if not self.updated:
+            # the previous action takes effect first
+            self.update()
         self.updated = False
         self.action = action
 
-- 
2.43.0


From 477c6ea17f317f957818c64dde4f02721822d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 136/174] fix: FourByThreeMaze never moves opposite to the
 action

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index e809cd8..134ff2b 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -47,7 +47,7 @@ class FourByThreeMaze(MazeTask):
             action = drawIndex(action, tolerant = True)
         poss = []
         for a in range(self.actions):
-            if action - a % 4 != 2:
+            if (action - a) % 4 != 2:
                 poss.append(a)
         if random() < self.stochAction * len(poss):
             MazeTask.performAction(self, choice(poss))
-- 
2.43.0


From fd9b5ef38666337429d3361eb7df4aa17a1a5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 137/174] fix: the shuttle is punished for running into a
 station only when it does

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index 6d99900..14e8e69 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -60,6 +60,7 @@ class ShuttleDocking(MazeTask):
         if type(action) == ndarray:
             action = drawIndex(action, tolerant = True)
         self.steps += 1
+        self.env.bang = False
         if action == self.TurnAround:
             self._turn()
         elif action == self.Forward:
-- 
2.43.0


From dee84377923900b168466715df8de18abc756d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 138/174] fix: noise on the actions of FourByThreeMaze is added
 once

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 134ff2b..3bd3f76 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -35,6 +35,11 @@ class FourByThreeMaze(MazeTask):
     goal = (3, 4)
     badPos = (2, 4)
 
+    def __init__(self, **args):
+        MazeTask.__init__(self, **args)
+        # the noise on the actions is added by performAction
+        self.env.stochAction = 0.
+
     @property
     def bad(self):
         return self.env.perseus == self.badPos
-- 
2.43.0


From e4d1a03e1a828f8951a9117c6ce55e8afa9c7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 139/174] fix: the bad spot of FourByThreeMaze is worth -1

---
 pybrain/rl/environments/mazes/tasks/maze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze.py b/pybrain/rl/environments/mazes/tasks/maze.py
index 8b91c16..6e14ff1 100644
--- a/pybrain/rl/environments/mazes/tasks/maze.py
+++ b/pybrain/rl/environments/mazes/tasks/maze.py
@@ -30,7 +30,7 @@ class MazeTask(POMDPTask):
         self.setArgs(**args)
         Task.__init__(self, self.mazeclass(self.topology, self.goal, initPos=self.initPos,
                                            stochObs=self.stochObs, stochAction=self.stochAction))
-        self.minReward = min(self.bangPenalty, self.defaultPenalty)
+        self.minReward = min(self.minReward, self.bangPenalty, self.defaultPenalty)
         self.reset()
 
     def getReward(self):
-- 
2.43.0


From ae31fd7c7d297e974b5870772d16bebe32c834fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:47 +0000
Subject: [PATCH 140/174] fix: memetic search keeps to the parameters that are
 on also when it sets them

---
 pybrain/optimization/memetic/memetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index 1efca21..86007f6 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -33,7 +33,10 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
                     x0 = evaluable.params
                     evaluable.returnZeros = True
                     def f(x):
+                        # the local search only sees the parameters that are on
+                        evaluable.returnZeros = False
                         evaluable._setParameters(x)
+                        evaluable.returnZeros = True
                         return BlackBoxOptimizer._oneEvaluation(self, evaluable)
                 else:
                     f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
-- 
2.43.0


From 7bd962ed348895ef9274aa2668c83a1e9330263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:27 +0000
Subject: [PATCH 141/174] fix: NFQ can learn from recorded actions, which are
 floats

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 6405183..03474ff 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -391,7 +391,7 @@ def asBinary(i):
 def one_to_n(val, maxval):
     """ Returns a 1-in-n binary encoding of a non-negative integer. """
     a = zeros(maxval, float)
-    a[val] = 1.
+    a[int(val)] = 1.
     return a
 
 
-- 
2.43.0


From 6906e7617613860cdad8c7d8f5b7abe676a7eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:27 +0000
Subject: [PATCH 142/174] fix: the order of unnamed parts of a network does not
 depend on what was created before them

---
 pybrain/structure/networks/network.py   | 15 ++++++++-------
 pybrain/structure/networks/recurrent.py |  5 +++--
 pybrain/utilities.py                    |  9 +++++++++
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index 0dbafd9..0b9eb60 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -12,6 +12,7 @@ from pybrain.structure.modules.module import Module
 from pybrain.structure.parametercontainer import ParameterContainer
 from pybrain.structure.connections.shared import SharedConnection
 from pybrain.structure.evolvables.evolvable import Evolvable
+from pybrain.utilities import orderOfNames
 
 
 class NetworkConstructionException(Exception):
@@ -54,7 +55,7 @@ class Network(Module, ParameterContainer):
         self.sorted = False
 
     def __str__(self):
-        sortedByName = lambda itr: sorted(itr, key=lambda i: i.name)
+        sortedByName = lambda itr: sorted(itr, key=orderOfNames)
 
         params = {
             'name': self.name,
@@ -187,9 +188,9 @@ class Network(Module, ParameterContainer):
 
         # Create a directed graph, including a counter of incoming connections.
         graph = {}
-        for node in self.modules:
-            if node not in graph:
-                # Zero incoming connections.
+        for node in self.connections:
+            if node in self.modules:
+                # In the order of their addition, zero incoming connections.
                 graph[node] = [0]
         for c in chain(*list(self.connections.values())):
             graph[c.inmod].append(c.outmod)
@@ -200,7 +201,7 @@ class Network(Module, ParameterContainer):
         roots = [node for (node, nodeinfo) in list(graph.items()) if nodeinfo[0] == 0]
 
         # Make sure the ordering on all runs is the same.
-        roots.sort(key=lambda x: x.name)
+        roots.sort(key=orderOfNames)
 
         # Repeatedly emit a root and remove it from the graph. Removing
         # a node may convert some of the node's direct children into roots.
@@ -231,8 +232,8 @@ class Network(Module, ParameterContainer):
         self._topologicalSort()
         # Sort the connections by name.
         for m in self.modules:
-            self.connections[m].sort(key=lambda x: x.name)
-        self.motherconnections.sort(key=lambda x: x.name)
+            self.connections[m].sort(key=orderOfNames)
+        self.motherconnections.sort(key=orderOfNames)
 
         # Create a single array with all parameters.
         tmp = [pc.params for pc in self._containerIterator()]
diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index 5cb0b9a..9528493 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -9,6 +9,7 @@ __author__ = 'Justin Bayer, bayer.justin@googlemail.com'
 
 from pybrain.structure.networks.network import Network
 from pybrain.structure.connections.shared import SharedConnection
+from pybrain.utilities import orderOfNames
 
 
 class RecurrentNetworkComponent(object):
@@ -23,7 +24,7 @@ class RecurrentNetworkComponent(object):
     def __str__(self):
         s = super(RecurrentNetworkComponent, self).__str__()
         s += "   Recurrent Connections:\n    %s" % (
-                sorted(self.recurrentConns, key=lambda c: c.name))
+                sorted(self.recurrentConns, key=orderOfNames))
         return s
 
     def _containerIterator(self):
@@ -133,7 +134,7 @@ class RecurrentNetworkComponent(object):
             index += m.indim
 
     def sortModules(self):
-        self.recurrentConns.sort(key=lambda x: x.name)
+        self.recurrentConns.sort(key=orderOfNames)
         super(RecurrentNetworkComponent, self).sortModules()
 
 
diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 03474ff..a4146f7 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -241,6 +241,15 @@ class Named(XMLBuildable):
         return "<%s '%s'>" % (self.__class__.__name__, self.name)
 
 
+def orderOfNames(named):
+    """ Sort key for named objects: by name, but automatically generated names
+    of a class in the order in which they were generated (9 before 10). """
+    head, _, number = named.name.rpartition('-')
+    if head and number.isdigit():
+        return head, int(number)
+    return named.name, -1
+
+
 def fListToString(a_list, a_precision=3):
     """ Returns a string representing a list of floats with a given precision """
     from numpy import around
-- 
2.43.0


From 6e02f4e105507d4d176340485b5315f8d3635e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:35 +0000
Subject: [PATCH 143/174] fix: the neurons of a decomposable network come in
 the order of its modules, not in the arbitrary order of a set

---
 pybrain/structure/networks/neurondecomposable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/neurondecomposable.py b/pybrain/structure/networks/neurondecomposable.py
index 8180b86..dbb9226 100644
--- a/pybrain/structure/networks/neurondecomposable.py
+++ b/pybrain/structure/networks/neurondecomposable.py
@@ -39,7 +39,7 @@ class NeuronDecomposableNetwork(object):
                 self.decompositionIndices[outneuron].append(w)
 
     def _neuronIterator(self):
-        for m in self.modules:
+        for m in self.modulesSorted:
             for n in range(m.dim):
                 yield (m, n)
 
@@ -100,7 +100,7 @@ class NeuronDecomposableNetwork(object):
             res.addInputModule(m)
         for m in n.outmodules:
             res.addOutputModule(m)
-        for m in n.modules:
+        for m in n.connections:
             res.addModule(m)
         for c in chain(*list(n.connections.values())):
             res.addConnection(c)
-- 
2.43.0


From 841c082e5a0c28f54e01f57a915a00b49a72cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:38 +0000
Subject: [PATCH 144/174] fix: grid search works with the numbers of steps,
 which numpy only takes as integers

---
 pybrain/tools/gridsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/gridsearch.py b/pybrain/tools/gridsearch.py
index 7faa298..6116f4e 100644
--- a/pybrain/tools/gridsearch.py
+++ b/pybrain/tools/gridsearch.py
@@ -99,7 +99,7 @@ class GridSearch2D:
         for i in range(ndim):
             linspaces.append(
                 self._permuteSequence(
-                    list(linspace(self._min_params[i], self._max_params[i], self._n_steps[i]))))
+                    list(linspace(self._min_params[i], self._max_params[i], int(self._n_steps[i])))))
 #        print(linspaces; exit(0))
 #        linspaces = array(linspaces,float)
         nr_c = len(linspaces[0])
-- 
2.43.0


From 1880a2c347f8d932b09c031ed0a65a6ba6c57715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:38 +0000
Subject: [PATCH 145/174] fix: DOE grid search does not truncate the
 performances if the first one is an integer

---
 pybrain/tools/gridsearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/gridsearch.py b/pybrain/tools/gridsearch.py
index 6116f4e..31cd70a 100644
--- a/pybrain/tools/gridsearch.py
+++ b/pybrain/tools/gridsearch.py
@@ -3,7 +3,7 @@ from __future__ import print_function
 __author__ = 'Michael Isik'
 
 from pybrain.tools.validation import CrossValidator
-from numpy import linspace, append, ones, zeros, array, where, apply_along_axis
+from numpy import linspace, append, ones, zeros, array, where
 import copy
 
 class GridSearch2D:
@@ -191,7 +191,7 @@ class GridSearchDOE:
         center = self._min_params + self._range / 2.
         for level in range(self._n_iterations):
             grid = self._calcGrid(center, level)
-            local_perf = apply_along_axis(self._validateWrapper, 1, grid)
+            local_perf = array([self._validateWrapper(params) for params in grid])
 
             max_idx = local_perf.argmax()
             center = grid[max_idx]
-- 
2.43.0


From de43828a7cb882132e0b5aea42b5cf478dd4cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:38 +0000
Subject: [PATCH 146/174] fix: the indices of the ends of sequences are
 integers

---
 pybrain/tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/validation.py b/pybrain/tools/validation.py
index 5fdb1f6..8246363 100644
--- a/pybrain/tools/validation.py
+++ b/pybrain/tools/validation.py
@@ -117,7 +117,7 @@ class SequenceHelper(object):
         sequence_ends = delete(dataset.getField('sequence_index') - 1, 0)
         sequence_ends = append(sequence_ends, dataset.getLength() - 1)
 #        print(sequence_ends; exit())
-        sequence_ends = array(sequence_ends)
+        sequence_ends = array(sequence_ends, dtype=int)
         return sequence_ends
 
     @classmethod
-- 
2.43.0


From e53a9e2e116941508a1ed91756b0a361cce7163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:38 +0000
Subject: [PATCH 147/174] fix: NNtools check for convergence only if asked to

---
 pybrain/tools/neuralnets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 8a76667..3c049b5 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -141,7 +141,7 @@ class NNregression(NNtools):
                     self.Graph.addData(1, epoch, err_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
@@ -270,7 +270,7 @@ class NNclassifier(NNtools):
                     self.Graph.addData(1, epoch, r_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
-- 
2.43.0


From 372878f0713072c338235b74ca8827e7457064a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:38 +0000
Subject: [PATCH 148/174] fix: NNtools evaluate on the validation set also if
 no test set chose the best weights, or all were 100% wrong

---
 pybrain/tools/neuralnets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 3c049b5..7ae5b1f 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -108,6 +108,7 @@ class NNregression(NNtools):
         inc = self.epoinc
         best_error = Infinity
         best_epoch = 0
+        bestweights = None
         learncurve_x = [0]
         learncurve_y = [0.0]
         valcurve_y = [0.0]
@@ -152,7 +153,8 @@ class NNregression(NNtools):
         logging.info("Best epoch: %6d, with error: %10g" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate same errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if bestweights is not None:
+                self.Trainer.module.params[:] = bestweights.copy()
             err_val = ModuleValidator.validate(Validator.MSE, self.Trainer.module, self.VDS)
             logging.info("Result on evaluation data: %10g" % err_val)
         # store training curve for saving into file
@@ -226,8 +228,9 @@ class NNclassifier(NNtools):
             self.Graph.setLegend(['training', 'test'], loc='lower right')
         epoch = 0
         inc = self.epoinc
-        best_error = 100.0
+        best_error = Infinity
         best_epoch = 0
+        bestweights = None
         learncurve_x = [0]
         learncurve_y = [0.0]
         valcurve_y = [0.0]
@@ -280,7 +283,8 @@ class NNclassifier(NNtools):
         logging.info("Best epoch: %6d, with error: %5.2f%%" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if bestweights is not None:
+                self.Trainer.module.params[:] = bestweights.copy()
             if isinstance(self.DS, SequentialDataSet):
                 r_val = 100. * (1.0 - testOnSequenceData(self.Trainer.module, self.VDS))
             else:
-- 
2.43.0


From 8146887b8a51ce534c76007ce484b398f7a2334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:38 +0000
Subject: [PATCH 149/174] fix: NNtools save the whole training curve, as text

---
 pybrain/tools/neuralnets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 7ae5b1f..dfd9fe7 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -65,11 +65,12 @@ class NNtools(object):
         logging.info('Saving training curves into ' + learnfname)
         if self.trainCurve is None:
             logging.error('No training curve available for saving!')
-        learnf = open(learnfname, "wb")
+        learnf = open(learnfname, "w", newline='')
         writer = csv.writer(learnf, dialect='excel')
-        nDataSets = len(self.trainCurve)
-        for i in range(1, len(self.trainCurve[0]) - 1):
-            writer.writerow([self.trainCurve[k][i] for k in range(nDataSets)])
+        # without test set there are no test errors
+        curves = [c for c in self.trainCurve if len(c) == len(self.trainCurve[0])]
+        for i in range(1, len(self.trainCurve[0])):
+            writer.writerow([c[i] for c in curves])
         learnf.close()
 
     def saveNetwork(self, fname):
-- 
2.43.0


From 107baf789c955f6f8ae6e2933d8aea1124bef9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 150/174] fix: read the labels of MNIST as bytes

---
 pybrain/tools/datasets/mnist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/datasets/mnist.py b/pybrain/tools/datasets/mnist.py
index 2f0e990..261c021 100644
--- a/pybrain/tools/datasets/mnist.py
+++ b/pybrain/tools/datasets/mnist.py
@@ -7,7 +7,7 @@ from pybrain.datasets import SupervisedDataSet
 
 
 def labels(filename):
-    fp = open(filename)
+    fp = open(filename, 'rb')
     magicnumber, length = struct.unpack('>ii', fp.read(8))
     assert magicnumber in (2049, 2051), ("Not an MNIST file: %i" % magicnumber)
     for _ in range(length):
-- 
2.43.0


From 92b09caa0e23ea4f666400cc8229035763388145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 151/174] fix: SVMData can return its targets

---
 pybrain/tools/svmdata.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index b9761cb..86aac67 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -131,14 +131,7 @@ class SVMData(SupervisedDataSet):
 
     def getTargets(self):
         """ return the targets of the dataset, preserving the current sample pointer """
-        self.storePointer()
-        self.reset()
-        targets = []
-        while not self.endOfSequences():
-            input, target, dummy = self.getSample()
-            targets.append(target)
-        self.recallPointer()
-        return targets
+        return list(self.getField('target'))
 
     def getFileName(self):
         return self.filename
-- 
2.43.0


From 674ad2a03909c592a950fbf851d9b8d831e50a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 152/174] fix: the numbers of samples of SVMData are those of
 the data loaded last

---
 pybrain/tools/svmdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index 86aac67..dcbdbfe 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -39,6 +39,9 @@ class SVMData(SupervisedDataSet):
         classes = list(set(flat_labels))
         self._classes = classes
         self.nClasses = len(classes)
+        # forget what was loaded before
+        self.nSamples = len(x)
+        self.classHist = {}
         for class_ in classes:
             self.classHist[class_] = flat_labels.count(class_)
 
-- 
2.43.0


From a3087b11c6bd1a65e2c9ab8ad8f75f0ec32103fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 153/174] fix: SVMData reports samples without a target, which
 got the one of the sample before

---
 pybrain/tools/svmdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index dcbdbfe..c9586e9 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -118,6 +118,8 @@ class SVMData(SupervisedDataSet):
                 if v:
                     label = i
                     break
+            else:
+                raise ValueError("no target for sample %i found" % len(x))
             feat = list(map(float, line.split()))
             x.append(feat)
             y.append([float(label)])
-- 
2.43.0


From ecfb600225f206407c4b88a1a9442cadf6d6b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 154/174] fix: time windows of sequences: integer indices, no
 longer loses the last complete window

---
 pybrain/tools/datasettools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 39a54b7..1b866ea 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -22,14 +22,14 @@ def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
     DSwin = NewClass(DSseq.indim * winsize, DSseq.outdim)
     nsamples = 0
     nseqs = 0
-    si = r_[DSseq['sequence_index'].flatten(), DSseq.endmarker['sequence_index']]
+    si = r_[DSseq['sequence_index'].flatten(), len(DSseq)].astype(int)
     for i in range(DSseq.getNumSequences()):
         # get one sequence as arrays
         input = DSseq['input'][si[i]:si[i + 1], :]
         target = DSseq['target'][si[i]:si[i + 1], :]
         nseqs += 1
         # cut this sequence into windows, assuming class is given at the last step of each sequence
-        for k in range(winsize, input.shape[0], winsize):
+        for k in range(winsize, input.shape[0] + 1, winsize):
             inp_win = input[k - winsize:k, :]
             tar_win = target[k - 1, :]
             DSwin.addSample(inp_win.flatten(), tar_win.flatten())
-- 
2.43.0


From a210d65fd57912d83dbe34e8ba9be3817d8702b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 155/174] fix: DataSetNormalizer can load the parameters it
 saved, as the kind they were

---
 pybrain/tools/datasettools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 1b866ea..9488180 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -88,7 +88,7 @@ class DataSetNormalizer(object):
         # the first line determines whether we interpret the file as
         # giving min/max of features or mean/std
         x = f.readline()
-        self.meanstd = False if x == 'x' else True
+        self.meanstd = False if x.strip() == 'x' else True
 
         # the next line gives the normalization bounds
         bounds = array(f.readline().split()).astype(float)
@@ -104,10 +104,10 @@ class DataSetNormalizer(object):
 
     def save(self, fname):
         f = open(fname, "w+")
-        f.write('x\n')
-        f.write('%g %g' % (self.newmin, self.newmax))
+        f.write('meanstd\n' if self.meanstd else 'x\n')
+        f.write('%.17g %.17g\n' % (self.newmin, self.newmax))
         for i in range(self.dim):
-            f.write('%d %g %g' % (i + 1, self.par1[i], self.par2[i]))
+            f.write('%d %.17g %.17g\n' % (i + 1, self.par1[i], self.par2[i]))
         f.close()
 
     def normalizePattern(self, y):
-- 
2.43.0


From e7c6e3e9d996923b4971bb9d0a8e807b0b709abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 156/174] fix: DataSetNormalizer normalizes patterns like whole
 datasets

---
 pybrain/tools/datasettools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 9488180..ca979e8 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -4,7 +4,7 @@ from __future__ import print_function
 # to be used for supervised training.
 __author__ = "Martin Felder"
 
-from numpy import r_, array, isfinite
+from numpy import r_, array, isfinite, where
 from pybrain.datasets import SequentialDataSet
 
 
@@ -111,7 +111,9 @@ class DataSetNormalizer(object):
         f.close()
 
     def normalizePattern(self, y):
-        return (y - self.par1) * self.scale + self.newmin
+        if self.meanstd:
+            return (y - self.par1) / where(self.par2 > 0, self.par2, 1.0)
+        return (y - self.par1) * where(isfinite(self.scale), self.scale, 1.0) + self.newmin
 
     def normalize(self, ds, field='input'):
         """ normalize dataset or vector wrt. to stored min and max """
-- 
2.43.0


From a83f0a9eef1f27bd577a4c49e38cbf308790c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 157/174] fix: ExTools save and load pickles as bytes

---
 pybrain/tools/example_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index 37065a1..a97b7a2 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -28,7 +28,7 @@ class ExTools():
 
     # Method for loading a weight matrix and initialize the network
     def loadWeights(self, filename):
-        filepointer = open(filename)
+        filepointer = open(filename, 'rb')
         self.agent.learner.current = load(filepointer)
         filepointer.close()
         self.agent.learner.gd.init(self.agent.learner.current)
@@ -37,13 +37,13 @@ class ExTools():
 
     # Method for saving the weight matrix    
     def saveWeights(self, filename, w):
-        filepointer = open(filename, 'w+')
+        filepointer = open(filename, 'wb')
         dump(w, filepointer)
         filepointer.close()
 
     # Method for saving the weight matrix    
     def saveResults(self, filename, results):
-        filepointer = open(filename, 'w+')
+        filepointer = open(filename, 'wb')
         dump(results, filepointer)
         filepointer.close()
 
-- 
2.43.0


From 2ea7c9bfdcb89c74381735ac2e72039ab099ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 158/174] fix: the results of ExTools are not shared by all
 instances

---
 pybrain/tools/example_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index a97b7a2..5aaac0f 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -18,10 +18,10 @@ class ExTools():
     loadName = "none.wgt"
     saveName = "none.wgt"
     resuName = "none.dat"
-    rl = []
-    rll = []
 
     def __init__(self, batch = 2, prnts = 1, kind = "optimizer"):
+        self.rl = []
+        self.rll = []
         self.batch = batch
         self.prnts = prnts
         self.kind = kind
-- 
2.43.0


From 69f4ee2f74ba97b1adca48f4f9ad722da17598e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 159/174] fix: ExTools can go on after showing the experiments

---
 pybrain/tools/example_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index 5aaac0f..6f532ab 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -74,9 +74,9 @@ class ExTools():
 
     def showExps(self):
         nEx = len(self.rll)
-        self.rll = array(self.rll)
-        r = self.rll.sum(axis=0)/nEx
-        d = self.rll-r
+        rll = array(self.rll)
+        r = rll.sum(axis=0)/nEx
+        d = rll-r
         v = (d**2).sum(axis=0)
         v = v/nEx
         stand = sqrt(v)
-- 
2.43.0


From 3f60dc2cf564d733124448ca265eea64145ace52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:37 +0000
Subject: [PATCH 160/174] fix: a failing load of SVMData does not change the
 number of samples

---
 pybrain/tools/svmdata.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index c9586e9..a5e4b8b 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -95,7 +95,6 @@ class SVMData(SupervisedDataSet):
 
             x.append(feat)
             y.append([ label ])
-            self.nSamples += 1
 
         for xi in x:
             while len(xi) < nFeatMax:
@@ -123,7 +122,6 @@ class SVMData(SupervisedDataSet):
             feat = list(map(float, line.split()))
             x.append(feat)
             y.append([float(label)])
-            self.nSamples += 1
         self.nCls = len(targline)
         targetfile.close()
         self._setDataFields(x, y)
-- 
2.43.0


From b3994453b0953183a3f4ffdc4370279dce0da516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:50 +0000
Subject: [PATCH 161/174] fix: removing the worst 0 individuals of a population
 does not remove all of them

---
 pybrain/supervised/evolino/gpopulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 0b689bd..84fdc44 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -125,7 +125,8 @@ class SimplePopulation(Population):
             If n is greater than the number of individuals inside the population
             all individuals are returned.
         """
-        return set(self.getSortedIndividualList()[-n:])
+        individuals = self.getSortedIndividualList()
+        return set(individuals[max(0, len(individuals) - n):])
 
     def removeWorstIndividuals(self, n):
         """ Removes the n individuals with the lowest fitness ranking.
-- 
2.43.0


From 079ffdb7df7e004b1ca0663e4081c6be999f8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:50 +0000
Subject: [PATCH 162/174] fix: populations can tell their maximal fitness

---
 pybrain/supervised/evolino/gpopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 84fdc44..0c2ad3c 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -105,7 +105,7 @@ class SimplePopulation(Population):
 
     def getMaxFitness(self):
         """ Returns the maximal fitness value """
-        return self.getIndividualFitness(self.getBestIndividuals(1))
+        return max(self._fitness.values())
 
 
 
-- 
2.43.0


From 3634feea2beeacc30fa08db2966d8e050f28eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:50 +0000
Subject: [PATCH 163/174] fix: Evolino selection keeps at least one parent,
 without which reproduction never ends

---
 pybrain/supervised/evolino/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 127f447..6c8d9c6 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -224,7 +224,7 @@ class EvolinoSubSelection(Filter):
 
         n = population.getIndividualsN()
         if self.nParents is None:
-            nKeep = n // 4
+            nKeep = max(1, n // 4)
         else:
             nKeep = self.nParents
 
-- 
2.43.0


From 3db85accc6836380f0754dd10b7f1bb801b75080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:50 +0000
Subject: [PATCH 164/174] fix: the default wtRatio of Evolino is a number, as
 which it is used

---
 pybrain/supervised/evolino/filter.py   | 8 ++++----
 pybrain/supervised/trainers/evolino.py | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 6c8d9c6..4e34414 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -8,7 +8,7 @@ from pybrain.supervised.evolino.population import SimplePopulation
 from pybrain.tools.validation import Validator
 from pybrain.tools.kwargsprocessor import KWArgsProcessor
 
-from numpy import array, dot, concatenate, Infinity
+from numpy import dot, concatenate, Infinity
 from scipy.linalg import pinv2
 from copy import deepcopy
 
@@ -26,8 +26,8 @@ class EvolinoEvaluation(Filter):
             :key dataset: The evaluation dataset
             :key evalfunc: Compares output to target values and returns a scalar, denoting the fitness.
                              Defaults to -mse(output, target).
-            :key wtRatio: Float array of two values denoting the ratio between washout and training length.
-                            Defaults to [1,2]
+            :key wtRatio: The part of each sequence used for washout, the rest is used for training.
+                            Defaults to 1/3
             :key verbosity: Verbosity level. Defaults to 0
         """
         Filter.__init__(self)
@@ -35,7 +35,7 @@ class EvolinoEvaluation(Filter):
 
         ap.add('verbosity', default=0)
         ap.add('evalfunc', default=lambda output, target:-Validator.MSE(output, target))
-        ap.add('wtRatio', default=array([1, 2], float))
+        ap.add('wtRatio', default=1. / 3.)
 
         self.network = evolino_network
         self.dataset = dataset
diff --git a/pybrain/supervised/trainers/evolino.py b/pybrain/supervised/trainers/evolino.py
index 865c9de..527580a 100644
--- a/pybrain/supervised/trainers/evolino.py
+++ b/pybrain/supervised/trainers/evolino.py
@@ -41,8 +41,9 @@ class EvolinoTrainer(Trainer):
             :key weightInitializer: Initializer object for the weights of the RNN. default=Randomization(...)
             :key mutationAlpha: The mutation's intensity. default=0.01
             :key mutationVariate: The variate used for mutation. default=CauchyVariate(...)
-            :key wtRatio: The quotient: washout-time/training-time. Needed to
+            :key wtRatio: The part of each sequence used for washout. Needed to
                             split the sequences into washout phase and training phase.
+                            default=1/3
             :key nBurstMutationEpochs: Number of epochs without increase of fitness in a row,
                                          before burstmutation is applied. default=Infinity
             :key backprojectionFactor: Weight of the backprojection. Usually
@@ -75,7 +76,7 @@ class EvolinoTrainer(Trainer):
         ap.add('mutationVariate', private=True, default=CauchyVariate(0, self._mutationAlpha))
 
         # evaluation
-        ap.add('wtRatio', private=True, default=(1, 3))
+        ap.add('wtRatio', private=True, default=1. / 3.)
 
         # burst mutation
         ap.add('nBurstMutationEpochs', default=Infinity)
-- 
2.43.0


From 8bc770d11e0745cbd1d80e0e430ff4eab0dc52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 165/174] fix: Evolino keeps a network even if no fitness
 exceeds -infinity

---
 pybrain/supervised/evolino/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 4e34414..d5ef183 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -121,8 +121,9 @@ class EvolinoEvaluation(Filter):
             # set the individual fitness
             population.setIndividualFitness(individual, fitness)
 
-            if best_fitness < fitness:
-                best_fitness = fitness
+            if best_W is None or best_fitness < fitness:
+                # a fitness of NaN is no better than any other
+                best_fitness = max(best_fitness, fitness)
                 best_genome = deepcopy(individual.getGenome())
                 best_W = deepcopy(net.getOutputWeightMatrix())
 
-- 
2.43.0


From d78de585aaa3e2e7f1bf9db2aa356d5087775603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 166/174] fix: Evolino trains on the dataset set last

---
 pybrain/supervised/trainers/evolino.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/evolino.py b/pybrain/supervised/trainers/evolino.py
index 527580a..99b2cdf 100644
--- a/pybrain/supervised/trainers/evolino.py
+++ b/pybrain/supervised/trainers/evolino.py
@@ -111,8 +111,13 @@ class EvolinoTrainer(Trainer):
         self._max_fitness = self.evaluation.max_fitness
         self._max_fitness_epoch = self.totalepochs
 
+    def setData(self, dataset):
+        Trainer.setData(self, dataset)
+        if hasattr(self, 'evaluation'):
+            self.evaluation.dataset = dataset
+
     def setDataset(self, dataset):
-        self.evaluation.dataset = dataset
+        self.setData(dataset)
 
     def trainOnDataset(self, *args, **kwargs):
         """ Not implemented """
-- 
2.43.0


From a9b2310307ab0957ac2c2f2b352298f46863333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:51 +0000
Subject: [PATCH 167/174] fix: SVMData reports feature numbers that do not
 ascend, whose values it stored in other columns

---
 pybrain/tools/svmdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index a5e4b8b..c926d49 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -86,6 +86,8 @@ class SVMData(SupervisedDataSet):
                 # construct list of features, taking care of sparsity
                 (idx, val) = r.split(':')
                 idx = int(idx)
+                if idx < nextidx:
+                    raise ValueError("feature numbers of sample %i do not ascend" % len(x))
                 for _ in range(nextidx, idx):
                     feat.append(0) # zzzzwar hier ein bug??
                 feat.append(float(val))
-- 
2.43.0


From 7cb922b55b3dc36caec506dcb6f9e453dad67cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:12 +0000
Subject: [PATCH 168/174] fix: the test grid of Gaussian processes is an array
 of points

---
 pybrain/auxiliary/gaussprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index 0deda60..c705d74 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -59,7 +59,7 @@ class GaussianProcess:
             assert len(start) == len(stop) == len(step)
             dimstr = ["start[%i]:stop[%i]:step[%i], " % (i, i, i) for i in range(len(start))]
             dimstr = ''.join(dimstr)
-        return eval('c_[map(ravel, mgrid[' + dimstr + '])]').T
+        return eval('c_[list(map(ravel, mgrid[' + dimstr + ']))]').T
 
     def _buildCov(self, a, b):
         K = zeros((len(a), len(b)), float)
-- 
2.43.0


From 24bc960975e5d650def53a280d1a89597854dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:12 +0000
Subject: [PATCH 169/174] fix: untrained Gaussian processes predict as many
 values as there are test points

---
 pybrain/auxiliary/gaussprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index c705d74..6dde8ba 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -110,6 +110,8 @@ class GaussianProcess:
     def _calculate(self):
         # calculate only of necessary
         if len(self.trainx) == 0:
+            self.pred_mean = self.mean + zeros(len(self.testx))
+            self.pred_cov = eye(len(self.testx))
             return
 
         # build covariance matrices
-- 
2.43.0


From 3676006d4afba7d60a0f86f992fb241aa46a1d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:12 +0000
Subject: [PATCH 170/174] fix: queries do not add empty buckets to locality
 sensitive hashes

---
 pybrain/supervised/knn/lsh/minhash.py     | 7 ++++---
 pybrain/supervised/knn/lsh/nearoptimal.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pybrain/supervised/knn/lsh/minhash.py b/pybrain/supervised/knn/lsh/minhash.py
index 3780e34..2581e08 100644
--- a/pybrain/supervised/knn/lsh/minhash.py
+++ b/pybrain/supervised/knn/lsh/minhash.py
@@ -123,9 +123,10 @@ class MinHash(object):
         """
         self._checkItem(item)
 
-        candidates = self.buckets[self._hash(item)]
-        candidates.sort(key=lambda x: jacardCoefficient(x[0], item),
-                        reverse=True)
+        candidates = self.buckets.get(self._hash(item), [])
+        candidates = sorted(candidates,
+                            key=lambda x: jacardCoefficient(x[0], item),
+                            reverse=True)
         return candidates[:k]
 
 
diff --git a/pybrain/supervised/knn/lsh/nearoptimal.py b/pybrain/supervised/knn/lsh/nearoptimal.py
index ed59dc5..176e84d 100644
--- a/pybrain/supervised/knn/lsh/nearoptimal.py
+++ b/pybrain/supervised/knn/lsh/nearoptimal.py
@@ -172,8 +172,9 @@ class MultiDimHash(object):
         """Return a set of candidates that might be nearest neighbours of a
         query point."""
         index = self.findBall(point)
-        logging.debug("Found %i candidates for cNN" % len(self.balls[index]))
-        return self.balls[index]
+        candidates = self.balls.get(index, [])
+        logging.debug("Found %i candidates for cNN" % len(candidates))
+        return candidates
 
     def knn(self, point, k):
         """Return the k approximate nearest neighbours of the item in the
-- 
2.43.0


From 86c1b90039b7531342d408757690d4c0fa531a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:12 +0000
Subject: [PATCH 171/174] fix: the inverse and the updates of an RBM use its
 weights as it does itself, transposed

---
 pybrain/structure/networks/rbm.py    | 4 ++--
 pybrain/unsupervised/trainers/rbm.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index f7f58b9..cd1a7a5 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -73,9 +73,9 @@ class Rbm(object):
 
     def invert(self):
         """Return the inverse rbm."""
-        # TODO: check if shape is correct
+        weights = self.params.reshape((self.hiddenDim, self.visibleDim))
         return self.__class__.fromDims(self.hiddenDim, self.visibleDim,
-                                       params=self.params)
+                                       params=weights.T.flatten())
 
     def activate(self, inpt):
         return self.net.activate(inpt)
diff --git a/pybrain/unsupervised/trainers/rbm.py b/pybrain/unsupervised/trainers/rbm.py
index 74a2f18..1670f17 100644
--- a/pybrain/unsupervised/trainers/rbm.py
+++ b/pybrain/unsupervised/trainers/rbm.py
@@ -60,7 +60,7 @@ class RbmGibbsTrainer(Trainer):
                 #print("*** Iteration %2d **************************************" % t)
 
                 params = self.rbm.params
-                params = params.reshape((self.rbm.visibleDim, self.rbm.hiddenDim))
+                params = params.reshape((self.rbm.hiddenDim, self.rbm.visibleDim)).T
                 biasParams = self.rbm.biasParams
 
                 mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
-- 
2.43.0


From a7b14002a5a75b476abc89e073496bb739e3e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:07 +0000
Subject: [PATCH 172/174] fix: DeepBeliefTrainer trains the layers of its
 network, which failed at the first

---
 pybrain/unsupervised/trainers/deepbelief.py | 36 ++++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 24125d1..348ab13 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -53,8 +53,9 @@ class DeepBeliefTrainer(Trainer):
             trainer.train()
         return rbm
 
-    def iterRbms(self):
-        """Yield every two layers as an rbm."""
+    def _iterConnections(self):
+        """Yield every two layers, the connection between them and that from
+        the bias."""
         layers = [i for i in self.net.modulesSorted
                   if isinstance(i, NeuronLayer) and not isinstance(i, BiasUnit)]
         # There will be a single bias.
@@ -62,44 +63,47 @@ class DeepBeliefTrainer(Trainer):
         layercons = (self.net.connections[i][0] for i in layers)
         # The biascons will not be sorted; we have to sort them to zip nicely
         # with the corresponding layers.
-        biascons = self.net.connections[bias]
-        biascons.sort(key=lambda c: layers.index(c.outmod))
-        modules = list(zip(layers, layers[1:], layercons, biascons))
-        for visible, hidden, layercon, biascon in modules:
-            rbm = Rbm.fromModules(visible, hidden, bias,
-                                  layercon, biascon)
-            yield rbm
+        biascons = sorted(self.net.connections[bias],
+                          key=lambda c: layers.index(c.outmod))
+        return list(zip(layers, layers[1:], layercons, biascons))
+
+    def iterRbms(self):
+        """Yield every two layers as an rbm, with parameters of its own."""
+        for visible, hidden, layercon, biascon in self._iterConnections():
+            yield Rbm.fromDims(visible.outdim, hidden.indim,
+                               layercon.params, biascon.params)
 
     def train(self):
         # We will build up a network piecewise in order to create a new dataset
         # for each layer.
         dataset = self.dataset
         piecenet = FeedForwardNetwork()
-        piecenet.addInputModule(copy.deepcopy(self.net.inmodules[0]))
         # Add a bias
         bias = BiasUnit()
         piecenet.addModule(bias)
         # Add the first visible layer
         firstRbm = next(self.iterRbms())
         visible = copy.deepcopy(firstRbm.visible)
-        piecenet.addModule(visible)
+        piecenet.addInputModule(visible)
         # For saving the rbms and their inverses
         self.invRbms = []
         self.rbms = []
-        for rbm in self.iterRbms():
-            self.net.sortModules()
+        for rbm, (_, _, layercon, netbiascon) in zip(self.iterRbms(),
+                                                     self._iterConnections()):
             # Train the first layer with an rbm trainer for `epoch` epochs.
             trainer = self.trainerKlass(rbm, dataset, self.cfg)
             for _ in range(self.epochs):
                 trainer.train()
             self.invRbms.append(trainer.invRbm)
             self.rbms.append(rbm)
+            layercon.params[:] = rbm.params
+            netbiascon.params[:] = rbm.biasParams
             # Add the connections and the hidden layer of the rbm to the net.
             hidden = copy.deepcopy(rbm.hidden)
             biascon = FullConnection(bias, hidden)
-            biascon.params[:] = rbm.biasWeights
+            biascon.params[:] = rbm.biasParams
             con = FullConnection(visible, hidden)
-            con.params[:] = rbm.weights
+            con.params[:] = rbm.params
 
             piecenet.addConnection(biascon)
             piecenet.addConnection(con)
@@ -110,7 +114,7 @@ class DeepBeliefTrainer(Trainer):
             piecenet.sortModules()
 
             dataset = UnsupervisedDataSet(rbm.hiddenDim)
-            for sample, in self.dataset:
+            for sample in self.dataset[self.datasetfield]:
                 new_sample = piecenet.activate(sample)
                 dataset.addSample(new_sample)
             visible = hidden
-- 
2.43.0


From 305af127bc9fc0c4bf9fc2a0d522303dbfa2fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:20 +0000
Subject: [PATCH 173/174] fix: the names of directories do not decide how
 SVMData reads a file

---
 pybrain/tools/svmdata.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index c926d49..00c5b87 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -2,6 +2,8 @@ from __future__ import print_function
 
 __author__ = 'Michael Isik'
 
+import os
+
 from pybrain.datasets import SupervisedDataSet
 
 class SVMData(SupervisedDataSet):
@@ -20,9 +22,11 @@ class SVMData(SupervisedDataSet):
     def loadData(self, fname):
         """ decide which format the data is in """
         self.filename = fname
-        if fname.find('.mat') >= 0:
+        # the names of the directories do not matter
+        name = os.path.basename(fname)
+        if name.find('.mat') >= 0:
             self.loadMATdata(fname)
-        elif fname.find('.svm') >= 0:
+        elif name.find('.svm') >= 0:
             self.loadSVMdata(fname)
         else:
             # dataset consists of raw ascii columns
@@ -108,7 +112,8 @@ class SVMData(SupervisedDataSet):
     def loadRawData(self, fname):
         """ read svm sparse format from file 'fname' (with labels only)
             output: [attributes[], labels[]] """
-        targetfile = open(fname.replace('data', 'targets'), 'r')
+        path, name = os.path.split(fname)
+        targetfile = open(os.path.join(path, name.replace('data', 'targets')), 'r')
         x = []
         y = []
         for line in open(fname, 'r').readlines():
-- 
2.43.0


From 92c0cb86c8cdcc7881b0d7fabb6903cde2815690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:20 +0000
Subject: [PATCH 174/174] fix: adaptive shaping of a FEM instance does not
 change all others

---
 pybrain/optimization/distributionbased/fem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index c5faee6..e005b33 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -54,6 +54,9 @@ class FEM(DistributionBasedOptimizer):
     def _additionalInit(self):
         assert self.numberOfCenters == 1, 'Mixtures of Gaussians not supported yet.'
 
+        # (adaptive shaping changes it)
+        self.shapingFunction = deepcopy(self.shapingFunction)
+
         xdim = self.numParameters
         self.alphas = ones(self.numberOfCenters) / float(self.numberOfCenters)
         self.mus = []
-- 
2.43.0


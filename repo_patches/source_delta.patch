From 4bd85524b94b84e17888adb6b25908ba4d1e0b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 01/59] fix: untrain on removal, and name messages by their id,
 in Trainer

The removal signal was connected to train(), so removing a message from a
corpus learned it a second time; and Message has no key(), so every
training through a Trainer raised AttributeError.
---
 sbclassifier/trainers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 80c3871..26ce860 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -48,7 +48,7 @@ class Trainer(object):
         self.is_spam = is_spam
         for corpus in corpora:
             message_added.connect(self.train, sender=corpus)
-            message_removed.connect(self.train, sender=corpus)
+            message_removed.connect(self.untrain, sender=corpus)
 
     def train(self, sender, message):
         """Train the database with the specified message.
@@ -58,7 +58,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('training with %s', message.key())
+        logging.debug('training with %s', message.id())
         self.classifier.learn(tokenize(message), self.is_spam)
         message.remember_trained(self.is_spam)
 
@@ -71,7 +71,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('untraining with %s', message.key())
+        logging.debug('untraining with %s', message.id())
         self.classifier.unlearn(tokenize(message), self.is_spam)
         # can raise ValueError if database is fouled.  If this is the case,
         # then retraining is the only recovery option.
-- 
2.43.0


From 0d623f57b47b077317f7c7ae159c131241b892eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 02/59] fix: keep an empty cache passed to Corpus

An empty cache is falsy, so Corpus replaced it by an in-memory one: a
FileCorpus created on an empty directory never stored anything.
---
 sbclassifier/corpora/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 1b9c2ab..be57a7f 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -137,7 +137,10 @@ class Corpus:
     """
 
     def __init__(self, cache=None):
-        self.message_cache = cache or NaiveCache(max_size=INFINITY)
+        # An empty cache is falsy, so its truth value must not be used here.
+        if cache is None:
+            cache = NaiveCache(max_size=INFINITY)
+        self.message_cache = cache
         # dict of all messages in corpus; value is None if msg not currently
         # loaded
         #self.msgs = {}
-- 
2.43.0


From 2961f6c337b060d45e632e87229bb4299477691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 03/59] fix: do not list a key twice when it is put in a cache
 again

The second listing counted against max_size, so putting a key again evicted
another entry too early, or the very entry that was just put.
---
 sbclassifier/corpora/caches.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7cf8953..41b83ba 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -87,9 +87,10 @@ class NaiveCache(Cache):
 
     def put(self, key, value):
         logging.debug('Caching %s', key)
-        self.data[key] = value
         # Here is where we manage the in-memory cache size...
-        self._keys.append(key)
+        if key not in self.data:
+            self._keys.append(key)
+        self.data[key] = value
         # Optimization: only keep the `self.max_size` entries put into the
         # cache most recently.
         if len(self._keys) > self.max_size:
-- 
2.43.0


From 9d333411d6f6d094e3f3b57c2caf6944a05ee389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 04/59] fix: do not delete a message's file when it is flushed
 from memory

FileCache.pop() deletes the file, and put() evicted through pop(), so adding
more messages than fit in memory deleted the oldest ones from disk.
---
 sbclassifier/corpora/caches.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 41b83ba..b134b3c 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -95,12 +95,17 @@ class NaiveCache(Cache):
         # cache most recently.
         if len(self._keys) > self.max_size:
             key_to_flush = self._keys[0]
-            self.pop(key_to_flush)
+            self._flush(key_to_flush)
 
     def get(self, key, default=None):
         return self.data.get(key, default)
 
     def pop(self, key):
+        return self._flush(key)
+
+    def _flush(self, key):
+        # Forgets the in-memory entry only; subclasses with another level of
+        # storage override `pop` to remove the entry from there as well.
         logging.debug('Flushing %s from cache', key)
         try:
             ki = self._keys.index(key)
-- 
2.43.0


From 005aed3ea19eb0b7c35c88f036d5bc249e73d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 05/59] fix: count the messages in a FileCache from its
 directory

The counter kept since construction was never updated by put() or pop().
---
 sbclassifier/corpora/caches.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index b134b3c..66e4acc 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -126,9 +126,6 @@ class FileCache(NaiveCache):
         self.directory = directory
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
-        # Maintain a counter of the number of messages currently stored in the
-        # directory. Scan the directory for existing message files.
-        self.num_files = len(list(iter(self)))
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
@@ -138,7 +135,7 @@ class FileCache(NaiveCache):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
     def __len__(self):
-        return self.num_files
+        return len(list(iter(self)))
 
     def __iter__(self):
         return self.keys()
-- 
2.43.0


From 0698b2941aa2b5c6a54a2982f31d42699c0235aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 06/59] fix: keep FileCache inside its directory

A message id such as '../x' made put() write, and pop() delete, a file
outside the directory of the corpus.
---
 sbclassifier/corpora/caches.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 66e4acc..9e4869d 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -134,6 +134,12 @@ class FileCache(NaiveCache):
     def _message_from_path(self, filename, *args, **kw):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
+    def _path(self, key):
+        # A key names a file in the directory itself, never one elsewhere.
+        if key != os.path.basename(key) or key in ('', os.curdir, os.pardir):
+            raise ValueError('Message {!r} is not a file name'.format(key))
+        return os.path.join(self.directory, key)
+
     def __len__(self):
         return len(list(iter(self)))
 
@@ -159,9 +165,10 @@ class FileCache(NaiveCache):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
+        path = self._path(key)
         super().put(key, value)
         logging.debug('Storing %s to file', key)
-        with open(os.path.join(self.directory, key), 'wb') as f:
+        with open(path, 'wb') as f:
             f.write(value.as_bytes())
 
     def get(self, key, default=None):
@@ -171,9 +178,9 @@ class FileCache(NaiveCache):
             return default
 
     def pop(self, key):
+        path = self._path(key)
         result = super().pop(key)
         logging.debug('Removing file %s', key)
-        path = os.path.join(self.directory, key)
         try:
             os.remove(path)
         except OSError:
-- 
2.43.0


From 6080b0f5dbdefe2e5be6d8fe8a66a845904c9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 07/59] fix: do not truncate a stored message that cannot be
 serialized

FileCache.put() serialized the message after it had opened, and so emptied,
the file that held the previous version.
---
 sbclassifier/corpora/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 9e4869d..76329ed 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -166,10 +166,12 @@ class FileCache(NaiveCache):
                                                                self.namefilter)
             raise ValueError(msg)
         path = self._path(key)
+        # This can fail; do it before anything is changed.
+        content = value.as_bytes()
         super().put(key, value)
         logging.debug('Storing %s to file', key)
         with open(path, 'wb') as f:
-            f.write(value.as_bytes())
+            f.write(content)
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From 7b5c9a796384bad5e3e68ac9b6c191638c7b358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 08/59] fix: give messages read back by FileCache their id

Without it, removing such a message from its corpus failed.
---
 sbclassifier/corpora/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 76329ed..30dc04b 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -150,7 +150,7 @@ class FileCache(NaiveCache):
         if key in self.data:
             return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key)
+            return self._message_from_path(key, message_id=key)
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
-- 
2.43.0


From 880e573a88bd2440ff4e1423e0f61ae8a6842d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 09/59] fix: give the caches the items() that Corpus.items()
 calls

Also raise NotImplementedError, not the constant NotImplemented, from the
abstract methods.
---
 sbclassifier/corpora/caches.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 30dc04b..08b740f 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -26,28 +26,31 @@ class Cache:
     """
 
     def __len__(self):
-        raise NotImplemented
+        raise NotImplementedError
 
     def __iter__(self):
-        raise NotImplemented
+        raise NotImplementedError
 
     def __getitem__(self, key):
-        raise NotImplemented
+        raise NotImplementedError
 
     def keys(self):
-        raise NotImplemented
+        raise NotImplementedError
 
     def values(self):
-        raise NotImplemented
+        raise NotImplementedError
+
+    def items(self):
+        raise NotImplementedError
 
     def put(self, key, value):
-        raise NotImplemented
+        raise NotImplementedError
 
     def get(self, key, default=None):
-        raise NotImplemented
+        raise NotImplementedError
 
     def pop(self, key):
-        raise NotImplemented
+        raise NotImplementedError
 
 
 class NaiveCache(Cache):
@@ -85,6 +88,9 @@ class NaiveCache(Cache):
     def values(self):
         return self.data.values()
 
+    def items(self):
+        return self.data.items()
+
     def put(self, key, value):
         logging.debug('Caching %s', key)
         # Here is where we manage the in-memory cache size...
@@ -160,6 +166,10 @@ class FileCache(NaiveCache):
         # Need to recreate each message object from the files.
         return (self._message_from_path(f, message_id=f) for f in self.keys())
 
+    def items(self):
+        return ((f, self._message_from_path(f, message_id=f))
+                for f in self.keys())
+
     def put(self, key, value):
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
-- 
2.43.0


From 8db5275bb12d82b3c783df3519199d5173c7cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 10/59] fix: repr() of a FileCorpus

The directory is an attribute of its cache.
---
 sbclassifier/corpora/filesystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 06104a3..30c5063 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -70,7 +70,8 @@ class FileCorpus(Corpus):
         lst = ', {}'.format(self.keys()) if VERBOSE and nummsgs > 0 else ''
         return ('<{} object at {:8.8x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
-                                           self.directory, nummsgs, s, lst)
+                                           self.message_cache.directory,
+                                           nummsgs, s, lst)
 
 
 class ExpiryFileCorpus(FileCorpus):
-- 
2.43.0


From 3f0a06d4b61b95026531e986d6890e457228ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 11/59] fix: let ExpiryFileCorpus remove expired messages

Messages have no createTimestamp() any more, so use the one of the file; and
remove_message() names its flag emit_signal.
---
 sbclassifier/corpora/filesystem.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 30c5063..61af294 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -83,6 +83,14 @@ class ExpiryFileCorpus(FileCorpus):
         self.expiry_due = time.time()
         super().__init__(*args, **kw)
 
+    def _creation_time(self, key):
+        path = os.path.join(self.message_cache.directory, key)
+        try:
+            return os.stat(path).st_ctime
+        except OSError:
+            # The file has been removed in the meantime.
+            return time.time()
+
     def remove_expired_messages(self):
         # Only check for expired messages after this time.  We set this to the
         # closest-to-expiry message's expiry time, so that this method can be
@@ -96,11 +104,11 @@ class ExpiryFileCorpus(FileCorpus):
         # during the loop.
         for key in list(self.keys()):
             msg = self[key]
-            timestamp = msg.createTimestamp()
+            timestamp = self._creation_time(key)
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
                 logging.debug('message %s has expired', msg.id())
-                self.remove_message(msg, do_training=False)
+                self.remove_message(msg, emit_signal=False)
             elif end_time < self.expiry_due:
                 self.expiry_due = end_time
 
-- 
2.43.0


From 87b82f4f2f2aca845eedc1872807a82ddf5b5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 12/59] fix: learn every word and every pair of words with
 use_bigrams

The last word was dropped, and words and pairs were lost when the words came
from an iterator.
---
 sbclassifier/classifiers/basic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 573988b..1bafc25 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -323,7 +323,7 @@ class Classifier:
     def _enhance_wordstream(self, wordstream):
         """Add bigrams to the wordstream.
 
-        For example, a b c -> a b "a b" c "b c"
+        For example, a b c -> a b c "a b" "b c"
 
         Note that these are *token* bigrams, and not *word* bigrams - i.e.
         'synthetic' tokens get bigram'ed, too.
@@ -339,15 +339,16 @@ class Classifier:
         removed, too.
 
         """
-        # For the sake of brevity, create an alias.
-        chain = itertools.chain.from_iterable
+        # The words are needed twice, so do not consume an iterator.
+        wordstream = list(wordstream)
         # Create an iterable of bigrams from `wordstream`.
         bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
         # This string interpolation must match the one in _getclues().
         to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
-        # This interleaves the individual strings from `wordstream` with the
-        # string representation of the bigrams.
-        return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
+        # This adds the string representation of the bigrams to the individual
+        # strings from `wordstream`.
+        return itertools.chain(wordstream,
+                               (to_string(x, y) for x, y in bigrams))
 
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
-- 
2.43.0


From 7482969415820f592e79a4c6e5a571fb10c68ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 13/59] fix: score bytes tokens with use_bigrams

Sorting the clues compared a bytes word with a str pair, a TypeError, whenever
the two had the same probability.
---
 sbclassifier/classifiers/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 1bafc25..88a4b74 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -541,7 +541,8 @@ class Classifier:
                             raw.append((tup, indices))
 
             # Sort raw, strongest to weakest spamprob.
-            raw.sort(reverse=True)
+            # Words and pairs of the same strength may not be comparable.
+            raw.sort(key=lambda x: x[0][:2], reverse=True)
             # raw.reverse()
             # Fill clues with the strongest non-overlapping clues.
             clues = []
-- 
2.43.0


From 73c75a13891d3992adf605838c72068df0950306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 14/59] fix: do not look up None as the pair before the first
 token

---
 sbclassifier/classifiers/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 88a4b74..56e7570 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -534,7 +534,9 @@ class Classifier:
                     pair = BIGRAM_FORMAT.format(last_token, token)
                 last_token = token
                 for clue, indices in (token, (i,)), (pair, (i - 1, i)):
-                    if clue not in seen:    # as always, skip duplicates
+                    # The first token has no preceding one to be paired with.
+                    # And as always, skip duplicates.
+                    if clue is not None and clue not in seen:
                         seen.add(clue)
                         tup = self._worddistanceget(clue)
                         if tup[0] >= MINIMUM_PROB_STRENGTH:
-- 
2.43.0


From b3ddbd31a568ebda4ca331d35135137f9f5c4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 15/59] fix: keep use_bigrams when a Classifier is pickled

An unpickled Classifier had no _use_bigrams, so learn() and spamprob() raised
AttributeError.
---
 sbclassifier/classifiers/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 56e7570..bc7e338 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -188,12 +188,15 @@ class Classifier:
         self.nham = 0
 
     def __getstate__(self):
-        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
+        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham,
+                self._use_bigrams)
 
     def __setstate__(self, t):
         if t[0] != PICKLE_VERSION:
             raise ValueError("Can't unpickle; version %s unknown".format(t[0]))
-        self.wordinfo, self.nspam, self.nham = t[1:]
+        self.wordinfo, self.nspam, self.nham = t[1:4]
+        # Older pickles do not tell.
+        self._use_bigrams = t[4] if len(t) > 4 else USE_BIGRAMS
         self._probcache = {}
 
     # Implementation note: Across vectors of length n, containing random
-- 
2.43.0


From 4a620f2e6c28e7bd727ea933b6772b192c3005ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 16/59] fix: name the unknown version in the error on
 unpickling

---
 sbclassifier/classifiers/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index bc7e338..57cf99e 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -193,7 +193,7 @@ class Classifier:
 
     def __setstate__(self, t):
         if t[0] != PICKLE_VERSION:
-            raise ValueError("Can't unpickle; version %s unknown".format(t[0]))
+            raise ValueError("Can't unpickle; version {} unknown".format(t[0]))
         self.wordinfo, self.nspam, self.nham = t[1:4]
         # Older pickles do not tell.
         self._use_bigrams = t[4] if len(t) > 4 else USE_BIGRAMS
-- 
2.43.0


From ba3b55ab33db44a28f0d04b855a67d8af4cce1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 17/59] fix: do not take an unreadable pickle for a new one

PickleClassifier.load() started afresh whatever went wrong, so a locked,
unreadable or damaged database was overwritten by the next store().
---
 sbclassifier/classifiers/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2477e6b..8d2a86a 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -156,7 +156,7 @@ class PickleClassifier(StoredClassifierBase):
 
         try:
             tempbayes = pickle_read(self.filename)
-        except:
+        except FileNotFoundError:
             # new pickle
             logging.debug('%s is a new pickle', self.filename)
             self.wordinfo = {}
-- 
2.43.0


From 1c168ff005f75b372f33a60de85f64d2eb841329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 18/59] fix: forget cached probabilities when a database is
 loaded

They depend on the message counts, which load() replaces.
---
 sbclassifier/classifiers/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 8d2a86a..9171426 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -162,6 +162,7 @@ class PickleClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+            self._probcache = {}
             return
 
         # Copy state from tempbayes.  The use of our base-class __setstate__ is
@@ -221,6 +222,7 @@ class ShelveClassifier(StoredClassifierBase):
             self.nspam = 0
             self.nham = 0
         self.wordinfo = {}
+        self._probcache = {}
         self.deleted_words = set()
         self.changed_words = set()
 
@@ -621,6 +623,7 @@ class CDBClassifier(StoredClassifierBase):
     #     return s
 
     def load(self):
+        self._probcache = {}
         if os.path.exists(self.filename):
             data = cdb.read(self.filename)
             self.nham, self.nspam = [int(i) for i in
-- 
2.43.0


From b041b6b6a55f1262e50722488d7b8152b3c670dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 19/59] fix: let ShelveClassifier store any token

Shelves only take strings as keys, but the tokenizer generates bytes, so
training on a tokenized message raised AttributeError; and the token 'saved
state' overwrote the message counts.
---
 sbclassifier/classifiers/storage.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 9171426..14c6210 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -126,6 +126,23 @@ class StoredClassifierBase(Classifier):
     def close(self):
         pass
 
+    # Some databases need keys that are strings. Different words must have
+    # different keys, and none of them may have the state key; words that are
+    # strings are, as far as possible, their own key.
+    def _word_to_key(self, word):
+        if isinstance(word, bytes):
+            return '\0b' + word.decode('latin-1')
+        if word == self.statekey or word.startswith('\0'):
+            return '\0s' + word
+        return word
+
+    def _key_to_word(self, key):
+        if key.startswith('\0b'):
+            return key[2:].encode('latin-1')
+        if key.startswith('\0s'):
+            return key[2:]
+        return key
+
 
 class PickleClassifier(StoredClassifierBase):
     """Classifier object persisted in a pickle.
@@ -236,7 +253,7 @@ class ShelveClassifier(StoredClassifierBase):
         # the naive way.
         for word in self.changed_words:
             val = self.wordinfo[word]
-            self.db[word] = val.__getstate__()
+            self.db[self._word_to_key(word)] = val.__getstate__()
         for word in self.deleted_words:
             if word in self.wordinfo:
                 msg = ('Should not have a wordinfo for "{}", flagged for'
@@ -244,7 +261,7 @@ class ShelveClassifier(StoredClassifierBase):
                 raise Exception(msg)
             # Word may be deleted before it was ever written.
             try:
-                del self.db[word]
+                del self.db[self._word_to_key(word)]
             except KeyError:
                 pass
 
@@ -275,7 +292,7 @@ class ShelveClassifier(StoredClassifierBase):
         except KeyError:
             ret = None
             if word not in self.deleted_words:
-                r = self.db.get(word)
+                r = self.db.get(self._word_to_key(word))
                 if r:
                     ret = self.WordInfoClass()
                     ret.__setstate__(r)
@@ -301,7 +318,7 @@ class ShelveClassifier(StoredClassifierBase):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
         if record.spamcount + record.hamcount <= 1:
-            self.db[word] = record.__getstate__()
+            self.db[self._word_to_key(word)] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
                 try:
                     wordset.remove(word)
@@ -328,7 +345,7 @@ class ShelveClassifier(StoredClassifierBase):
     def _wordinfokeys(self):
         wordinfokeys = list(self.db.keys())
         del wordinfokeys[wordinfokeys.index(self.statekey)]
-        return wordinfokeys
+        return [self._key_to_word(key) for key in wordinfokeys]
 
 
 # TODO this should be replaced with a SQLAlchemy-backed classifier.
-- 
2.43.0


From 0fd0c1bc9849762c5bf5a106c8f04ea830eab1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 20/59] fix: make lookups in a CDB work, and its lengths count
 bytes

The hash function applied ord() to the integers of a bytes object, the
recorded lengths were those of the strings and not of their encodings, and
lookups compared strings with bytes.
---
 sbclassifier/cdb.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0f25cbd..5709a76 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -30,10 +30,14 @@ def cdb_hash(buf):
     h = CDB_HASHSTART
     for c in buf:
         h = (h + (h << 5)) & 0xffffffff
-        h ^= ord(c)
+        h ^= c
     return h
 
 
+def to_bytes(s):
+    return bytes(s, 'utf-8') if isinstance(s, str) else s
+
+
 class Cdb(object):
 
     def __init__(self, fp):
@@ -145,12 +149,12 @@ class Cdb(object):
 
     def __getitem__(self, key):
         self.findstart()
-        return self.findnext(key)
+        return self.findnext(to_bytes(key))
 
     def get(self, key, default=None):
         self.findstart()
         try:
-            return self.findnext(key)
+            return self.findnext(to_bytes(key))
         except KeyError:
             return default
 
@@ -170,10 +174,12 @@ def cdb_make(outfile, items):
     # write keys and data
     outfile.seek(pos)
     for key, value in items:
+        key = to_bytes(key)
+        value = to_bytes(value)
         outfile.write(uint32_pack(len(key)) + uint32_pack(len(value)))
         h = cdb_hash(key)
-        outfile.write(bytes(key, 'utf-8'))
-        outfile.write(bytes(value, 'utf-8'))
+        outfile.write(key)
+        outfile.write(value)
         tables.setdefault(h & 255, []).append((h, pos))
         pos += 8 + len(key) + len(value)
 
-- 
2.43.0


From b709441eeba72f8beeea9cae63becee69407a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 21/59] fix: make CDBClassifier load and store, with spam and
 ham in order

It called functions of a module that was never imported; and it wrote the ham
count before the spam count, but read them the other way round.
---
 sbclassifier/classifiers/storage.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 14c6210..3daa1b7 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -54,17 +54,12 @@ import shelve
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
+from sbclassifier.cdb import Cdb
+from sbclassifier.cdb import cdb_make
 # from sbclassifier import cdb
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 
-try:
-    from cdb import cdb_read
-    from cdb import cdb_write
-    cdb_is_available = True
-except ImportError:
-    cdb_is_available = False
-
 
 # A little magic.  We'd like to use ZODB as the default storage,
 # because we've had so many problems with bsddb, and we'd like to swap
@@ -642,15 +637,17 @@ class CDBClassifier(StoredClassifierBase):
     def load(self):
         self._probcache = {}
         if os.path.exists(self.filename):
-            data = cdb.read(self.filename)
+            with open(self.filename, 'rb') as f:
+                data = {k.decode('utf-8'): v.decode('utf-8')
+                        for k, v in Cdb(f)}
             self.nham, self.nspam = [int(i) for i in
                                      data[self.statekey].split(',')]
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
             #                  for k, v in data.items()
             #                  if k != self.statekey}
             from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
-            self.wordinfo = {k: from_string(v) for k, v in data.items()
-                             if k != self.statekey}
+            self.wordinfo = {self._key_to_word(k): from_string(v)
+                             for k, v in data.items() if k != self.statekey}
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
                           self.filename, self.nham, self.nspam)
         else:
@@ -661,9 +658,11 @@ class CDBClassifier(StoredClassifierBase):
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
-        items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
+        items.extend((self._word_to_key(word),
+                      '{:d},{:d}'.format(info.spamcount, info.hamcount))
                      for word, info in self.wordinfo.items())
-        cdb.write(self.filename, items)
+        with open(self.filename, 'wb') as f:
+            cdb_make(f, items)
 
 
 # # If ZODB isn't available, then this class won't be useable, but we
-- 
2.43.0


From 49d6cc09c27b63af3373f68eb19dd2e0dce231ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 22/59] fix: replace a pickle atomically

The temporary file was in another directory, possibly on another file system,
where moving it copies it piece by piece onto the old pickle; and it was left
behind when pickling failed.
---
 sbclassifier/safepickle.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 943bc76..178ef6e 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -5,8 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import os
 import pickle
-import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -28,7 +28,14 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
-        # first, then move the data to the requested filename second.
-        with NamedTemporaryFile(delete=False) as fp:
-            pickle.dump(value, fp, protocol)
-        shutil.move(fp.name, filename)
+        # first, then move the data to the requested filename second. Moving
+        # is atomic only within a file system, so use the same directory.
+        directory = os.path.dirname(os.path.abspath(filename))
+        fp = NamedTemporaryFile(dir=directory, delete=False)
+        try:
+            with fp:
+                pickle.dump(value, fp, protocol)
+            os.replace(fp.name, filename)
+        except:
+            os.unlink(fp.name)
+            raise
-- 
2.43.0


From 1edc437b02beddd01d45ed9bfc41a61b97b09f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 23/59] fix: return no addresses for a name that cannot be
 resolved

dns_lookup() let socket.gaierror escape, and so a mail with a bad host name
stopped the tokenizer.
---
 sbclassifier/dnsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 38b050e..6ab0bad 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -14,7 +14,7 @@ def timed(f):
             old_timeout = socket.getdefaulttimeout()
             socket.setdefaulttimeout(DEFAULT_TIMEOUT)
             return f(*args, **kw)
-        except socket.timeout:
+        except OSError:
             return ()
         finally:
             socket.setdefaulttimeout(old_timeout)
-- 
2.43.0


From 844a2843af45b6bf0bbb85104816e1cea8ed0a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 24/59] fix: do not ignore the prefix lengths given to
 subnets()

---
 sbclassifier/iputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/iputils.py b/sbclassifier/iputils.py
index 7a16984..bb7b639 100644
--- a/sbclassifier/iputils.py
+++ b/sbclassifier/iputils.py
@@ -28,4 +28,4 @@ def subnets(address, prefix_lengths=None):
     #     net = lambda n: ip_network((address, n), strict=False)
     #
     net = lambda n: ip_network('{}/{}'.format(address, n), strict=False)
-    return (net(num_bits) for num_bits in (8, 16, 24, 32))
+    return (net(num_bits) for num_bits in prefix_lengths)
-- 
2.43.0


From c5f2beab3f64c5c28873e76011793890e903b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 25/59] fix: return no addresses for a name that is not a valid
 host name

Such names, for example 'a..b', raise UnicodeError.
---
 sbclassifier/dnsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 6ab0bad..fa39b55 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -14,7 +14,7 @@ def timed(f):
             old_timeout = socket.getdefaulttimeout()
             socket.setdefaulttimeout(DEFAULT_TIMEOUT)
             return f(*args, **kw)
-        except OSError:
+        except (OSError, UnicodeError):
             return ()
         finally:
             socket.setdefaulttimeout(old_timeout)
-- 
2.43.0


From 2b1fdcaaf03fb7c088b770fc04c6dfe6ce30fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 26/59] fix: remove the notations that were asked for

remove_sb_headers() passed the two flags in the wrong order.
---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3c9d4..e77c399 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -558,7 +558,7 @@ class Message(_Message):
             del self[name]
         # Also delete notations - typically this is called just before
         # training, and we don't want them there for that.
-        self.remove_notations(remove_to_notations, remove_subject_notations)
+        self.remove_notations(remove_subject_notations, remove_to_notations)
 
 
 # Utility function to insert an exception header into the given RFC822 text.
-- 
2.43.0


From 5be7c5633c74f18ebbde2db0b5f8f65203f8efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 27/59] fix: do not fail on a message whose id header is not
 ASCII

The value of such a header is a Header, which set_id() rejects with TypeError.
---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index e77c399..c788d40 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -337,7 +337,7 @@ class Message(_Message):
     def set_id_from_payload(self):
         try:
             self.set_id(self[MAILID_HEADER_NAME])
-        except ValueError:
+        except (TypeError, ValueError):
             return None
         return self.messageid
 
-- 
2.43.0


From 3cecd5dad8f6f79b57a355b7b7c159b10f5ddba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 28/59] fix: remove notations from messages that had no such
 header

add_notations() then adds the header, without a comma.
---
 sbclassifier/message.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index c788d40..cfeb261 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -514,6 +514,9 @@ class Message(_Message):
             unsure = Classification.unsure.name + ','
             if remove_subject_notations:
                 for disp in (ham, spam, unsure):
+                    if subject == disp[:-1]:
+                        del self["Subject"]
+                        break
                     if subject.startswith(disp):
                         self.replace_header("Subject", subject[len(disp):])
                         # Only remove one, maximum.
@@ -525,6 +528,9 @@ class Message(_Message):
             unsure = "%s@spambayes.invalid," % (Classification.unsure.name,)
             if remove_to_notations:
                 for disp in (ham, spam, unsure):
+                    if to == disp[:-1]:
+                        del self["To"]
+                        break
                     if to.startswith(disp):
                         self.replace_header("To", to[len(disp):])
                         # Only remove one, maximum.
-- 
2.43.0


From e5829a4a2828a1e60f2d11c650c6357b252ca69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 29/59] fix: do not add the id header to a message without an
 id

Its value would be None.
---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index cfeb261..f564687 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -451,7 +451,7 @@ class Message(_Message):
                         lineLength = 8
             self[headerName] = "".join(wrappedEvd)
 
-        if add_unique_id:
+        if add_unique_id and self.messageid is not None:
             self[MAILID_HEADER_NAME] = self.messageid
 
         self.add_notations(notate_to or (), notate_subject or ())
-- 
2.43.0


From 80c088cf8f0e16e33c4462ffc6aea8860c54b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 30/59] fix: do not fail to remove notations from headers that
 are not ASCII

The value of such a header is a Header, which has no startswith().
---
 sbclassifier/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index f564687..f6ccd81 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -509,6 +509,7 @@ class Message(_Message):
         """
         subject = self["Subject"]
         if subject:
+            subject = str(subject)
             ham = Classification.ham.name + ','
             spam = Classification.spam.name + ','
             unsure = Classification.unsure.name + ','
@@ -523,6 +524,7 @@ class Message(_Message):
                         break
         to = self["To"]
         if to:
+            to = str(to)
             ham = "%s@spambayes.invalid," % (Classification.ham.name,)
             spam = "%s@spambayes.invalid," % (Classification.spam.name,)
             unsure = "%s@spambayes.invalid," % (Classification.unsure.name,)
-- 
2.43.0


From 25fed27d49c3f55fc2ad3112b587255e7770a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 31/59] fix: crack the file names of attachments and uuencoded
 sections

The patterns are for bytes, but the names of attachments are strings: all of
them were reported as bogus. And a uuencoded section raised TypeError.
---
 sbclassifier/strippers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c746c89..7c07c32 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -94,17 +94,23 @@ def log2(n, log=math.log, c=math.log(2)):
     return log(n)/c
 
 
+def to_bytes(s):
+    # Text that cannot be encoded must not stop the tokenizer.
+    return s if isinstance(s, bytes) else s.encode('utf-8', 'replace')
+
+
 def crack_filename(fname):
-    yield "fname:" + fname
+    fname = to_bytes(fname)
+    yield b"fname:" + fname
     components = fname_sep_re.split(fname)
     morethan1 = len(components) > 1
     for component in components:
         if morethan1:
-            yield "fname comp:" + component
+            yield b"fname comp:" + component
         pieces = urlsep_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
-                yield "fname piece:" + piece
+                yield b"fname piece:" + piece
 
 
 def crack_content_xyz(msg):
@@ -132,7 +138,7 @@ def crack_content_xyz(msg):
         fname = msg.get_filename()
         if fname is not None:
             for x in crack_filename(fname):
-                yield 'filename:' + x
+                yield b'filename:' + x
     except TypeError:
         # bug in email pkg?  see the thread beginning at
         # http://mail.python.org/pipermail/spambayes/2003-September/008006.html
@@ -215,8 +221,8 @@ class UUencodeStripper(Stripper):
 
     def tokenize(self, m):
         mode, fname = m.groups()
-        return (['uuencode mode:%s' % mode] +
-                ['uuencode:%s' % x for x in crack_filename(fname)])
+        return ([b'uuencode mode:' + mode] +
+                [b'uuencode:' + x for x in crack_filename(fname)])
 
 
 class URLStripper(Stripper):
-- 
2.43.0


From 651dfab0740014545ba010cefc7bd1095acd74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 32/59] fix: do not stop at headers that are not ASCII or use
 RFC 2231

The first are Header objects, and the type parameter is a tuple in the second.
---
 sbclassifier/strippers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 7c07c32..b005f0f 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import email.utils
 import math
 import re
 import urllib
@@ -118,6 +119,7 @@ def crack_content_xyz(msg):
 
     x = msg.get_param('type')
     if x is not None:
+        x = email.utils.collapse_rfc2231_value(x)
         yield 'content-type/type:' + x.lower()
 
     try:
@@ -132,7 +134,8 @@ def crack_content_xyz(msg):
 
     x = msg.get('content-disposition')
     if x is not None:
-        yield 'content-disposition:' + x.lower()
+        # This is not a string if the header is not ASCII.
+        yield 'content-disposition:' + str(x).lower()
 
     try:
         fname = msg.get_filename()
-- 
2.43.0


From 322974471358ca1826ded871f809faf1585375e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 33/59] fix: lose the trailing punctuation of URLs

The result of rstrip() was discarded.
---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index b005f0f..194b2dd 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -308,7 +308,7 @@ class URLStripper(Stripper):
         #     The code is at http://mystuff.org/here?  Didn't resolve.
         # or
         #     I found it at http://mystuff.org/there/.  Thanks!
-        guts.rstrip(b'.:?!/')
+        guts = guts.rstrip(b'.:?!/')
         for piece in guts.split(b'/'):
             for chunk in urlsep_re.split(piece):
                 pushclue(b"url:" + chunk)
-- 
2.43.0


From 0c38891b85dcd358709f09756ec8219aabce0e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 34/59] fix: take URLs apart when the options for that are on

The code mixed bytes and strings, and passed a list where one address was
expected; and a netloc that cannot be parsed raised ValueError.
---
 sbclassifier/strippers.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 194b2dd..502f930 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -8,7 +8,7 @@
 import email.utils
 import math
 import re
-import urllib
+import urllib.parse
 
 # Tell SpamBayes where to cache IP address lookup information.
 # Only comes into play if lookup_ip is enabled. The default
@@ -241,19 +241,19 @@ class URLStripper(Stripper):
         proto, guts = m.groups()
         assert guts
         if proto is None:
-            if guts.lower().startswith("www"):
-                proto = "http"
-            elif guts.lower().startswith("ftp"):
-                proto = "ftp"
+            if guts.lower().startswith(b"www"):
+                proto = b"http"
+            elif guts.lower().startswith(b"ftp"):
+                proto = b"ftp"
             else:
-                proto = "unknown"
+                proto = b"unknown"
         tokens = [b"proto:" + proto]
         pushclue = tokens.append
 
         if X_PICK_APART_URLS:
-            url = proto + "://" + guts
+            url = (proto + b"://" + guts).decode('latin-1')
 
-            escapes = re.findall(r'%..', guts)
+            escapes = re.findall(r'%..', url)
             # roughly how many %nn escapes are there?
             if escapes:
                 pushclue("url:%%%d" % int(log2(len(escapes))))
@@ -264,17 +264,21 @@ class URLStripper(Stripper):
             tokens.extend(["url:" + escape for escape in escapes])
 
             # now remove any obfuscation and probe around a bit
-            url = urllib.parse.unquote(url)
-            scheme, netloc, path, params, query, frag = \
-                urllib.parse.urlparse(url)
+            url = urllib.parse.unquote(url, 'latin-1')
+            try:
+                scheme, netloc, path, params, query, frag = \
+                    urllib.parse.urlparse(url)
+            except ValueError:
+                scheme = netloc = ''
 
             if X_LOOKUP_IP:
                 ips = cache.lookup(netloc)
                 if not ips:
                     pushclue("url-ip:lookup error")
                 else:
-                    for clue in gen_dotted_quad_clues("url-ip", ips):
-                        pushclue(clue)
+                    for ip in ips:
+                        for clue in gen_dotted_quad_clues("url-ip", ip):
+                            pushclue(clue)
 
             # one common technique in bogus "please (re-)authorize yourself"
             # scams is to make it appear as if you're visiting a valid
@@ -302,7 +306,7 @@ class URLStripper(Stripper):
                 pushclue("url:ip addr")
 
             # make sure we later tokenize the unobfuscated url bits
-            proto, guts = url.split("://", 1)
+            guts = url.split("://", 1)[1].encode('latin-1')
 
         # Lose the trailing punctuation for casual embedding, like:
         #     The code is at http://mystuff.org/here?  Didn't resolve.
-- 
2.43.0


From a1ff6fa6874b977ed07c4a7ae992f5ee8e48940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 35/59] fix: do not stop at text that cannot be encoded

Encoded words can decode to lone surrogates, which UTF-8 does not encode.
---
 sbclassifier/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3260f78..20be4ee 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -29,6 +29,7 @@ from sbclassifier.strippers import StyleStripper
 from sbclassifier.strippers import CommentStripper
 from sbclassifier.strippers import NoframesStripper
 from sbclassifier.strippers import crack_content_xyz
+from sbclassifier.strippers import to_bytes
 from sbclassifier.iputils import gen_dotted_quad_clues
 
 #: If true, tokenizer.Tokenizer.tokenize_headers() will tokenize the contents
@@ -780,7 +781,7 @@ def convert_to_bytes(f):
     """
     def converted_f(*args, **kw):
         for x in f(*args, **kw):
-            yield x if isinstance(x, bytes) else bytes(x, 'utf-8')
+            yield to_bytes(x)
     return converted_f
 
 
-- 
2.43.0


From f4c5fc244a9769f13185d7d752225006ea634362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 36/59] fix: tokenize long words

Every long word with a non-ASCII character, or that looks like an e-mail
address, raised TypeError, because the words are bytes.
---
 sbclassifier/tokenizer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 20be4ee..0aed689 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -873,10 +873,10 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
         # Don't want to skip embedded email addresses.
         # An earlier scheme also split up the y in x@y on '.'.  Not splitting
         # improved the f-n rate; the f-p rate didn't care either way.
-        if n < 40 and b'.' in word and word.count('@') == 1:
-            p1, p2 = word.split('@')
-            yield 'email name:' + p1
-            yield 'email addr:' + p2
+        if n < 40 and b'.' in word and word.count(b'@') == 1:
+            p1, p2 = word.split(b'@')
+            yield b'email name:' + p1
+            yield b'email addr:' + p2
 
         else:
             # There's value in generating a token indicating roughly how
@@ -888,7 +888,7 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
                 yield "skip:%c %d" % (word[0], n // 10 * 10)
             if has_highbit_char(word):
                 hicount = 0
-                for i in map(ord, word):
+                for i in word:
                     if i >= 128:
                         hicount += 1
                 yield "8bit%%:%d" % round(hicount * 100.0 / len(word))
-- 
2.43.0


From 87790081f7c09eeb031c2aabff2a84aa2f2e09a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 37/59] fix: tokenize encoded words in Subject and address
 headers

decode_header() returns bytes for them: an encoded subject raised TypeError,
as did one with a long word, and encoded names became tokens like "b'x'".
---
 sbclassifier/tokenizer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 0aed689..8754eef 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -790,6 +790,19 @@ def convert_to_bytes(f):
 # and text/html part happen to have redundant content, it doesn't matter
 # to results, since training and scoring are done on the set of all
 # words in the msg, without regard to how many times a given word appears.
+def header_text(x, charset):
+    """Returns the text of a part of a header, as returned with its charset by
+    :func:`email.header.decode_header`.
+
+    """
+    if isinstance(x, bytes):
+        try:
+            return x.decode(charset or 'ascii', 'replace')
+        except (LookupError, ValueError):
+            return x.decode('latin-1')
+    return str(x)
+
+
 def textparts(msg):
     """Return a set of all msg parts with content maintype 'text'."""
     return set([part for part in msg.walk()
@@ -1226,14 +1239,15 @@ class Tokenizer:
         except (binascii.Error, email.errors.HeaderParseError, ValueError):
             subjcharsetlist = [(x, 'invalid')]
         for x, subjcharset in subjcharsetlist:
+            x = header_text(x, subjcharset)
             if subjcharset is not None:
                 yield 'subjectcharset:' + subjcharset
             # this is a workaround for a bug in the csv module in Python
             # <= 2.3.4 and 2.4.0 (fixed in 2.5)
             x = x.replace('\r', ' ')
             for w in subject_word_re.findall(x):
-                for t in tokenize_word(w):
-                    yield 'subject:' + t
+                for t in tokenize_word(to_bytes(w)):
+                    yield b'subject:' + to_bytes(t)
             for w in punctuation_run_re.findall(x):
                 yield 'subject:' + w
 
@@ -1262,6 +1276,7 @@ class Tokenizer:
                             ValueError):
                         subjcharsetlist = [(name, 'invalid')]
                     for name, charset in subjcharsetlist:
+                        name = header_text(name, charset)
                         yield "%s:name:%s" % (field, name.lower())
                         if charset is not None:
                             yield "%s:charset:%s" % (field, charset)
-- 
2.43.0


From d599544a7d914a79ab20b945161c1b51b3e554bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 38/59] fix: tokenize headers that are not ASCII

Their values are Header objects, which lack the methods of strings.
---
 sbclassifier/tokenizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 8754eef..32284f7 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1364,7 +1364,7 @@ class Tokenizer:
         for field in ('to', 'cc'):
             count = 0
             for addrs in msg.get_all(field, []):
-                count += len(addrs.split(','))
+                count += len(str(addrs).split(','))
             if count > 0:
                 yield '%s:2**%d' % (field, round(log2(count)))
 
@@ -1374,7 +1374,7 @@ class Tokenizer:
         #            rate isn't affected.
         for field in ('x-mailer',):
             prefix = field + ':'
-            x = msg.get(field, 'none').lower()
+            x = str(msg.get(field, 'none')).lower()
             yield prefix + ' '.join(x.split())
 
         # Received:
@@ -1384,7 +1384,7 @@ class Tokenizer:
                 # everything here should be case insensitive and not be
                 # split across continuation lines, so normalize whitespace
                 # and letter case just once per header
-                header = ' '.join(header.split()).lower()
+                header = ' '.join(str(header).split()).lower()
 
                 for clue in received_complaints_re.findall(header):
                     yield 'received:' + clue
@@ -1405,7 +1405,7 @@ class Tokenizer:
 
         # Message-Id:  This seems to be a small win and should not
         # adversely affect a mixed source corpus so it's always enabled.
-        msgid = msg.get("message-id", "")
+        msgid = str(msg.get("message-id", ""))
         m = message_id_re.match(msgid)
         if m:
             # looks okay, return the hostname
-- 
2.43.0


From 9ec88b392043ac708d428022a996f469c96062d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 39/59] fix: tokenize all headers when asked for

The arguments for that were ignored, the headers to skip were one pattern that
matches none of them, and the tokens were mixed from bytes and strings.
---
 sbclassifier/tokenizer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 32284f7..d77e488 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -47,7 +47,7 @@ BASIC_HEADER_TOKENIZE_ONLY = False
 
 #: If basic_header_tokenize is true, then basic_header_skip is a set of headers
 #: that should be skipped.
-BASIC_HEADER_SKIP = ("received date x-.*",)
+BASIC_HEADER_SKIP = ("received", "date", "x-.*")
 
 #: If true, the first few characters of application/octet-stream sections are
 #: used, undecoded.  What 'few' means is decided by octet_prefix_size.
@@ -1143,8 +1143,10 @@ class Tokenizer:
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
             message = email.message_from_string(message)
-        return itertools.chain(self.tokenize_headers(message),
-                               self.tokenize_body(message))
+        return itertools.chain(
+            self.tokenize_headers(message, basic_header_tokenize,
+                                  basic_header_tokenize_only),
+            self.tokenize_body(message))
 
     def tokenize_headers(self, msg,
                          basic_header_tokenize=BASIC_HEADER_TOKENIZE,
@@ -1186,9 +1188,9 @@ class Tokenizer:
                         break   # do nothing -- we're supposed to skip this
                 else:
                     # Never found a match -- don't skip this.
-                    for w in subject_word_re.findall(v):
-                        for t in tokenize_word(w):
-                            yield "%s:%s" % (k, t)
+                    for w in subject_word_re.findall(str(v)):
+                        for t in tokenize_word(to_bytes(w)):
+                            yield to_bytes(k) + b":" + to_bytes(t)
             if basic_header_tokenize_only:
                 return
 
-- 
2.43.0


From 05df5cc5320579e71d07cda4ad5118059f8c0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 40/59] fix: tokenize bodies with entities and tags

The bodies are bytes, in which the tags and entities were replaced by strings.
---
 sbclassifier/tokenizer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index d77e488..a6a96a2 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1106,9 +1106,9 @@ numeric_entity_re = re.compile(rb'&#(\d+);')
 
 def numeric_entity_replacer(m):
     try:
-        return chr(int(m.group(1)))
+        return chr(int(m.group(1))).encode('utf-8')
     except:
-        return '?'
+        return b'?'
 
 
 breaking_entity_re = re.compile(rb"""
@@ -1548,7 +1548,7 @@ class Tokenizer:
                 text = text.translate(non_ascii_translate_tab)
 
             for t in find_html_virus_clues(text):
-                yield "virus:%s" % t
+                yield b"virus:" + t
 
             # Get rid of uuencoded sections, embedded URLs, <style gimmicks,
             # and HTML comments.
@@ -1563,7 +1563,7 @@ class Tokenizer:
 
             # Remove HTML/XML tags.  Also &nbsp;.  <br> and <p> tags should
             # create a space too.
-            text = breaking_entity_re.sub(' ', text)
+            text = breaking_entity_re.sub(b' ', text)
             # It's important to eliminate HTML tags rather than, e.g.,
             # replace them with a blank (as this code used to do), else
             # simple tricks like
@@ -1571,7 +1571,7 @@ class Tokenizer:
             # can be used to disguise words.  <br> and <p> were special-
             # cased just above (because browsers break text on those,
             # they can't be used to hide words effectively).
-            text = html_re.sub('', text)
+            text = html_re.sub(b'', text)
 
             for t in self.tokenize_text(text):
                 yield t
-- 
2.43.0


From 54d5a80c13dc921dc75864b2df1809fbef161800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 41/59] fix: tokenize bodies that cannot be decoded

They are strings, but everything below expects bytes.
---
 sbclassifier/tokenizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index a6a96a2..150bf82 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1016,7 +1016,7 @@ non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
 # about line length, but other than that are strict.  Group 1 is non-empty
 # after a match iff the last significant char on the line is '='; in that
 # case, it must be the last line of the base64 section.
-base64_re = re.compile(r"""
+base64_re = re.compile(rb"""
     [ \t]*
     [a-zA-Z0-9+/]*
     (=*)
@@ -1037,7 +1037,7 @@ def try_to_repair_damaged_base64(text):
         if m.group(1):
             # This line has a trailing '=' -- the base64 part is done.
             break
-    base64text = ''
+    base64text = b''
     if i:
         base64 = text[:i]
         try:
@@ -1530,7 +1530,7 @@ class Tokenizer:
                 yield "control: couldn't decode"
                 text = part.get_payload(decode=False)
                 if text is not None:
-                    text = try_to_repair_damaged_base64(text)
+                    text = try_to_repair_damaged_base64(to_bytes(text))
 
             if text is None:
                 yield 'control: payload is None'
-- 
2.43.0


From 502d368fd873bf037f3696e483512da526a6e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 42/59] fix: make the options for octets and non-ASCII
 characters work

They mixed bytes and strings.
---
 sbclassifier/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 150bf82..850bba9 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1003,7 +1003,7 @@ for ch in ' \t\r\n':
     non_ascii_translate_tab[ord(ch)] = ch
 del i, ch
 
-non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
+non_ascii_translate_tab = ''.join(non_ascii_translate_tab).encode('ascii')
 
 # The base64 decoder is actually very forgiving, but flubs one case:
 # if no padding is required (no trailing '='), it continues to read
@@ -1489,7 +1489,7 @@ class Tokenizer:
                     yield "control: octet payload is None"
                     continue
 
-                yield "octet:%s" % text[:OCTET_PREFIX_SIZE]
+                yield b"octet:" + to_bytes(text[:OCTET_PREFIX_SIZE])
 
         parts = imageparts(msg)
         if IMAGE_SIZE:
-- 
2.43.0


From 4b0b1e0e7059272ee8cde3908695e29ce17a9114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 43/59] fix: make the option for NNTP headers work

Only the first header was used, and a message without one raised TypeError; the
lookups were called with an argument they do not have and their results, a set
and a tuple, used as a list and a string.
---
 sbclassifier/tokenizer.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 850bba9..50f77c3 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1592,13 +1592,15 @@ def mine_nntp(msg):
     nntp_headers = msg.get_all("nntp-posting-host", ())
     for address in nntp_headers:
         # Determine if the address is an IP address or a host name.
+        address = str(address).strip()
         try:
             address = ipaddress.ip_address(address)
-            # If we have reached this point, then we have an IP address.
-            return clues_from_ipaddress(address)
         except ValueError:
             # If we have reached this point, then we have a domain name.
-            return clues_from_domainname(address)
+            yield from clues_from_domainname(address)
+        else:
+            # If we have reached this point, then we have an IP address.
+            yield from clues_from_ipaddress(address)
 
 
 def top_two(name):
@@ -1615,7 +1617,7 @@ def top_two(name):
 
 def clues_from_ipaddress(address):
     ip_clues = gen_dotted_quad_clues('nntp-host', address)
-    names = reverse_dns_lookup(address)
+    names = reverse_dns_lookup(str(address))
     host_clues = []
     if names:
         host_clues = ['nntp-host-ip:has-reverse',
@@ -1627,14 +1629,14 @@ def clues_from_ipaddress(address):
 def clues_from_domainname(name):
     host_clues = ['nntp-host-name:{}'.format(name),
                   'nntp-host-domain:{}'.format(top_two(name))]
-    addresses = dns_lookup(name)
+    addresses = sorted(dns_lookup(name))
     ip_clues = []
     if addresses:
         # For the sake of brevity, rename this function.
         chain = itertools.chain.from_iterable
-        ip_clues = chain(gen_dotted_quad_clues('nntp-host-ip', address)
-                         for address in addresses)
-        if reverse_dns_lookup(addresses[0], qType='PTR') == name:
+        ip_clues = list(chain(gen_dotted_quad_clues('nntp-host-ip', address)
+                              for address in addresses))
+        if name in reverse_dns_lookup(addresses[0]):
             ip_clues.append('nntp-host-ip:has-reverse')
     return itertools.chain(host_clues, ip_clues)
 
-- 
2.43.0


From 71b7823e279b4fa9e09ff0b9e55c05e679c7712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 44/59] fix: call signature of base_url()

---
 sbclassifier/classifiers/slurping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b6f60e..846f540 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -110,7 +110,7 @@ def is_unsure(probability):
     return HAM_CUTOFF < probability < SPAM_CUTOFF
 
 
-def base_url(self, url):
+def base_url(url):
     # To try and speed things up, and to avoid following
     # unique URLS, we convert the URL to as basic a form
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
-- 
2.43.0


From 0a6fa4da907329f2dae974c081db4887f25b48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 45/59] fix: let SlurpingURLStripper record the URL it finds

It assigned to a local variable, and compared bytes with a string.
---
 sbclassifier/classifiers/slurping.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 846f540..9d25850 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -136,6 +136,7 @@ class SlurpingURLStripper(URLStripper):
         # If there are no URLS, then we need to clear the
         # wordstream, or whatever was there from the last message
         # will be used.
+        global slurp_wordstream
         slurp_wordstream = None
         # Continue as normal.
         return URLStripper.analyze(self, text)
@@ -148,14 +149,16 @@ class SlurpingURLStripper(URLStripper):
         #     return tokens
 
         proto, guts = m.groups()
-        if proto != "http":
+        if proto != b"http":
             return tokens
 
         assert guts
+        guts = guts.decode('ascii')
         while guts and guts[-1] in '.:;?!/)':
             guts = guts[:-1]
 
-        slurp_wordstream = (proto, guts)
+        global slurp_wordstream
+        slurp_wordstream = ('http', guts)
         return tokens
 
 
-- 
2.43.0


From b186ee803632098987381074b702bbaf0477df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 46/59] fix: call of all() with three arguments in
 SlurpingClassifier.spamprob

---
 sbclassifier/classifiers/slurping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 9d25850..506a184 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -174,8 +174,8 @@ class SlurpingClassifier(Classifier):
 
         # If necessary, enhance it with the tokens from whatever is
         # at the URL's destination.
-        needs_to_slurp = all(len(clues) < MAX_DISCRIMINATORS, is_unsure(prob),
-                             slurp_wordstream)
+        needs_to_slurp = (len(clues) < MAX_DISCRIMINATORS and is_unsure(prob)
+                          and slurp_wordstream)
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
             slurp_tokens.extend([w for (w, _p) in clues])
-- 
2.43.0


From ebd0522759b7f4fa430179dac44b7004fa097fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 47/59] fix: make the cache of retrieved pages work

It used methods that its corpus does not have, the representation of a dict as
headers, and the representation of bytes as tokens.
---
 sbclassifier/classifiers/slurping.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 506a184..c68de65 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,7 +5,6 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
-from email import message_from_string
 import itertools
 import logging
 import os
@@ -20,6 +19,7 @@ from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
 #from sbclassifier.corpora.filesystem import FileMessageFactory
+from sbclassifier.message import from_bytes
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 from sbclassifier.tokenizer import tokenize
@@ -224,9 +224,9 @@ class SlurpingClassifier(Classifier):
             logging.debug("Creating URL cache directory")
             os.makedirs(dir)
 
-        self.urlCorpus = ExpiryFileCorpus(age, dir, cacheSize=20)
+        self.urlCorpus = ExpiryFileCorpus(age, dir, cache_size=20)
         # Kill any old information in the cache
-        self.urlCorpus.removeExpiredMessages()
+        self.urlCorpus.remove_expired_messages()
 
         # Setup caches for unretrievable urls
         self.bad_url_cache_name = os.path.join(dir, "bad_urls.pck")
@@ -345,19 +345,19 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:non_html"] += (url,)
                 return ["url:non_html"]
 
-            fake_message_string = str(f.headers) + "\r\n" + f.text
+            headers = ''.join('{}: {}\r\n'.format(name, value)
+                              for name, value in f.headers.items())
+            fake_message_string = headers + "\r\n" + f.text
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-            message = self.urlCorpus.makeMessage(url_key,
-                                                 fake_message_string)
-            self.urlCorpus.addMessage(message)
+            message = from_bytes(fake_message_string.encode('utf-8', 'replace'),
+                                 message_id=url_key)
+            self.urlCorpus.add_message(message)
         else:
-            fake_message_string = cached_message.as_string()
+            message = cached_message
 
-        msg = message_from_string(fake_message_string)
-
-        tokens = tokenize(msg, basic_header_tokenize=True,
+        tokens = tokenize(message, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-        tokens = ['{}{}'.format(X_WEB_PREFIX, tok) for tok in tokens]
+        tokens = [bytes(X_WEB_PREFIX, 'utf-8') + tok for tok in tokens]
         return tokens
-- 
2.43.0


From 630d6cf19d20e5f7cf0f09a90edad9cf1ecdd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 48/59] fix: start afresh after a bad URL cache pickle

A bad pickle can raise almost any exception, in particular UnpicklingError.
---
 sbclassifier/classifiers/slurping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index c68de65..04be95e 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -234,7 +234,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.bad_url_cache_name):
             try:
                 self.bad_urls = pickle_read(self.bad_url_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.warning("Bad URL pickle, using new.")
@@ -249,7 +249,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.http_error_cache_name):
             try:
                 self.http_error_urls = pickle_read(self.http_error_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.debug("Bad HHTP error pickle, using new.")
-- 
2.43.0


From 0f3859de236fb3aa391243f191367d12b3878fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 49/59] fix: return one token, not its characters, for a URL
 known to fail

---
 sbclassifier/classifiers/slurping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 04be95e..b511d11 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -293,7 +293,7 @@ class SlurpingClassifier(Classifier):
             if url in self.bad_urls[err]:
                 return [err]
         if url in self.http_error_urls:
-            return self.http_error_urls[url]
+            return [self.http_error_urls[url]]
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
-- 
2.43.0


From dce13064f9dc441e06e7b65c012cbae48e0d02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 50/59] fix: do not fail on a URL without a valid host name

---
 sbclassifier/classifiers/slurping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index b511d11..6b88b8b 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -297,6 +297,8 @@ class SlurpingClassifier(Classifier):
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
+        if mo is None:
+            return ["url:non_resolving"]
         domain = mo.group(1)
         if mo.group(3) is None:
             port = 80
@@ -304,7 +306,7 @@ class SlurpingClassifier(Classifier):
             port = mo.group(3)
         try:
             socket.getaddrinfo(domain, port)
-        except OSError:
+        except (OSError, UnicodeError):
             self.bad_urls["url:non_resolving"] += (url,)
             return ["url:non_resolving"]
 
-- 
2.43.0


From c55348c2d03edd122330ab6f3a8677ea5541e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 51/59] fix: do not use a proxy without a name when none is
 configured

---
 sbclassifier/classifiers/slurping.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 6b88b8b..0311caf 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -325,9 +325,11 @@ class SlurpingClassifier(Classifier):
                 return ["url:non_html"]
 
             url_with_proto = '{}://{}'.format(proto, url)
-            proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
-                          PROXY_PORT)
-            proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
+            proxies = None
+            if PROXY_SERVER:
+                proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
+                              PROXY_PORT)
+                proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
             logging.debug("Slurping %s", url)
             try:
                 f = requests.get(url_with_proto, proxies=proxies,
-- 
2.43.0


From b5aa28c00dc752ae26dbcec776c7ceb31e04e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 52/59] fix: generate only bytes as slurped tokens

Strings cannot be ordered with the other tokens of a message, which raised
TypeError in spamprob() for clues of the same strength.
---
 sbclassifier/classifiers/slurping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 0311caf..691e6c4 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -23,6 +23,7 @@ from sbclassifier.message import from_bytes
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 from sbclassifier.tokenizer import tokenize
+from sbclassifier.strippers import to_bytes
 from sbclassifier.strippers import URLStripper
 
 DOMAIN_AND_PORT_RE = re.compile(r"([^:/\\]+)(:([\d]+))?")
@@ -209,7 +210,9 @@ class SlurpingClassifier(Classifier):
             if slurp_wordstream:
                 self.do_slurp = False
 
-                tokens = self.slurp(*slurp_wordstream)
+                # The other tokens are bytes, too.
+                tokens = [to_bytes(tok) for tok in
+                          self.slurp(*slurp_wordstream)]
                 self.do_slurp = True
                 self._save_caches()
                 return tokens
-- 
2.43.0


From e4ec1534b03eff8f52d1cf8dc4c2cdb59eac7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 53/59] fix: generate a token for each type of HTTP error

requests does not raise an exception for them, so the error pages were
tokenized instead.
---
 sbclassifier/classifiers/slurping.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 691e6c4..91ad3ca 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -345,6 +345,11 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:unknown_error"] += (url,)
                 return ["url:unknown_error"]
 
+            if f.status_code >= 400:
+                token = "url:http_{}".format(f.status_code)
+                self.http_error_urls[url] = token
+                return [token]
+
             # Anything that isn't text/html is ignored
             content_type = f.headers.get('content-type')
             if content_type is None or \
-- 
2.43.0


From 8a6fce07119fb1af71adb2825d6e8d94f4a745ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 54/59] fix: removing a message cannot delete a file that does
 not match the filter

---
 sbclassifier/corpora/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 08b740f..383e4ea 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -191,6 +191,10 @@ class FileCache(NaiveCache):
 
     def pop(self, key):
         path = self._path(key)
+        # A file that is not a message of this corpus must not be removed.
+        if not fnmatch.fnmatch(key, self.namefilter):
+            raise ValueError('Message {} does not match filter {}'.format(
+                key, self.namefilter))
         result = super().pop(key)
         logging.debug('Removing file %s', key)
         try:
-- 
2.43.0


From 10dcb30938d1dd6a4c05e7aba887b8fc0ae7fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 55/59] fix: report a CDB that cannot be reached instead of
 starting with an empty one

---
 sbclassifier/classifiers/storage.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 3daa1b7..0d5f62f 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -636,25 +636,27 @@ class CDBClassifier(StoredClassifierBase):
 
     def load(self):
         self._probcache = {}
-        if os.path.exists(self.filename):
+        try:
             with open(self.filename, 'rb') as f:
                 data = {k.decode('utf-8'): v.decode('utf-8')
                         for k, v in Cdb(f)}
-            self.nham, self.nspam = [int(i) for i in
-                                     data[self.statekey].split(',')]
-            # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
-            #                  for k, v in data.items()
-            #                  if k != self.statekey}
-            from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
-            self.wordinfo = {self._key_to_word(k): from_string(v)
-                             for k, v in data.items() if k != self.statekey}
-            logging.debug('%s is an existing CDB, with %d ham and %d spam',
-                          self.filename, self.nham, self.nspam)
-        else:
+        except FileNotFoundError:
             logging.debug('%s is a new CDB', self.filename)
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+            return
+
+        self.nham, self.nspam = [int(i) for i in
+                                 data[self.statekey].split(',')]
+        # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
+        #                  for k, v in data.items()
+        #                  if k != self.statekey}
+        from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
+        self.wordinfo = {self._key_to_word(k): from_string(v)
+                         for k, v in data.items() if k != self.statekey}
+        logging.debug('%s is an existing CDB, with %d ham and %d spam',
+                      self.filename, self.nham, self.nspam)
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
-- 
2.43.0


From 0c942e33e103852d0d1cd4c456a941455775e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 56/59] fix: an empty message id, once set, cannot be changed
 either

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index f6ccd81..521723a 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -245,7 +245,7 @@ class Message(_Message):
     #     self.__dict__.update(new_me.__dict__)
 
     def set_id(self, new_id):
-        if self.messageid and self.messageid != new_id:
+        if self.messageid is not None and self.messageid != new_id:
             raise ValueError('message ID has already been set, cannot be'
                              ' changed: {!r} to {!r}'.format(self.messageid, new_id))
         if new_id is None:
-- 
2.43.0


From 762c022a56a9282bf4cc35368b4803813be79bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 57/59] fix: a carriage return in an exception cannot add
 another header to the message

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 521723a..63ef1ca 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -584,7 +584,7 @@ def insert_exception_header(string_msg, msg_id=None):
 
     # Build the header.  This will strip leading whitespace from
     # the lines, so we add a leading space to maintain indentation.
-    detailLines = details.strip().split('\n')
+    detailLines = CRLF_RE.split(details.strip())
     spacedDetails = '\n '.join(detailLines)
     headerName = 'X-Spambayes-Exception'
     header = Header(spacedDetails, header_name=headerName)
-- 
2.43.0


From 21ba324ae2efd2fa533b2b0268c251b89565231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 58/59] fix: return no names for an address with a null
 character

---
 sbclassifier/dnsutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index fa39b55..5667c41 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -40,6 +40,9 @@ class memoize(dict):
 #@memoize
 @timed
 def reverse_dns_lookup(address):
+    # The system function stops with a type error at a null character.
+    if isinstance(address, str) and '\0' in address:
+        return ()
     try:
         return (socket.gethostbyaddr(address)[0], )
     except socket.herror:
-- 
2.43.0


From ab39a5e56fe3415de2f09080decc288a914deca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 59/59] fix: tokenize the parts of a message in their order

The order of a set of message objects depends on their addresses, so the
same message could give different pairs of tokens each time, and a message
learned with bigrams could not be unlearned.
---
 sbclassifier/tokenizer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 50f77c3..24c323e 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -804,15 +804,15 @@ def header_text(x, charset):
 
 
 def textparts(msg):
-    """Return a set of all msg parts with content maintype 'text'."""
-    return set([part for part in msg.walk()
-                if part.get_content_maintype() == 'text'])
+    """Return a list of all msg parts with content maintype 'text'."""
+    return [part for part in msg.walk()
+            if part.get_content_maintype() == 'text']
 
 
 def octetparts(msg):
-    """Return a set of all msg parts with type 'application/octet-stream'."""
-    return set([part for part in msg.walk()
-                if part.get_content_type() == 'application/octet-stream'])
+    """Return a list of all msg parts with type 'application/octet-stream'."""
+    return [part for part in msg.walk()
+            if part.get_content_type() == 'application/octet-stream']
 
 
 def imageparts(msg):
-- 
2.43.0


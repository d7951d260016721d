From 40fd13a5afcf4c0865b31104df1d9a9d02aab937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 1/9] fix: a server accepts HANDSHAKE4 only after a verified
 HANDSHAKE2

Without a preceding HANDSHAKE2 on the connection, a client that does not know
the secret key could authenticate by sending only HANDSHAKE4 SUCCESS.
---
 privcount/protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6adb4bb..61d7d84 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -936,7 +936,9 @@ class PrivCountServerProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE3))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE4:
-            if self.handshake4_verify(event_line):
+            # the client has not proved that it knows the secret key until we
+            # have verified its HANDSHAKE2 on this connection
+            if self.client_cookie and self.handshake4_verify(event_line):
                 self.handshake_succeeded()
             else:
                 self.handshake_failed()
-- 
2.43.0


From 2ec4ea735dce6af7969a38ceda579803cc8a4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 2/9] fix: do not tally or publish counts from a collection
 phase that failed

When a node did not return its counts (or an abort happened before the
shares were exchanged), write_results still summed the counts of the
others and published them.
---
 privcount/tally_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 029f927..3a9e49d 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2199,7 +2199,11 @@ class CollectionPhase(object):
 
         # keep going, we want the context for debugging
         tally_was_successful = False
-        if len(self.final_counts) <= 0:
+        if self.is_error():
+            # if a node is missing, its blinds or its counts are missing too:
+            # the sum of the others is either nonsense, or it has less noise
+            logging.warning("collection phase had an error, not writing a tally!")
+        elif len(self.final_counts) <= 0:
             logging.warning("no tally results to write!")
         else:
             tallied_counter = SecureCounters(self.counters_config,
-- 
2.43.0


From 674010d5ecb4dc660e796f715e46addda0c4fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 3/9] fix: a share keeper that fails to start keeps no counts

do_start kept a keystore with only some of the shares when importing a share
failed, and kept the keystore of an earlier phase when the start config was
refused. A stop command then returned these counts as those of this phase.
---
 privcount/share_keeper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b1ce3ad..25a8b06 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -114,6 +114,9 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         in json and send it back to TS
         '''
         logging.info("got command to start new collection phase")
+        # if we can't start, we must not answer the next stop command with the
+        # counts from an earlier collection phase
+        self.keystore = None
         # keep the start config to send to the TS at the end of the collection
         # deepcopy so we can delete the (encrypted) secrets from the shares
         self.start_config = deepcopy(config)
@@ -161,6 +164,8 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                                 .format(share, config))
                 # TODO: secure delete
                 del private_key
+                # the counts are useless if any share is missing from them
+                self.keystore = None
                 return None
 
         logging.info("successfully started and imported {} blinding shares for {} counters ({} bins)"
-- 
2.43.0


From ef87117198841f4766ce325616d5c73c31d52181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 4/9] fix: refuse a round with an unexpected share keeper key

do_start raised a KeyError instead, which stops the data collector.
---
 privcount/data_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 13e8b9b..754d869 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -234,8 +234,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
             if requested_sk_digest not in expected_sk_digests:
                 logging.info('we received an unexpected key for share keeper {}'.format(sk_uid))
                 digest_error = True
-
-            expected_sk_digests.remove(requested_sk_digest)
+            else:
+                expected_sk_digests.remove(requested_sk_digest)
 
         if digest_error or len(expected_sk_digests) != 0:
             logging.info('refusing to start collecting without required share keepers')
-- 
2.43.0


From 164b77d625eef6a35df83499641dc537f813c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 5/9] fix: keep the start time and noise config of a running
 round

A second start command, or a status check, replaced the start time and the
noise config that decide how long the next round has to be delayed.
---
 privcount/data_collector.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 754d869..5ed5937 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -120,12 +120,12 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         Return the list of counters we are collecting, or None if we haven't
         started yet.
         '''
-        if self.start_config is None:
+        if self.aggregator is None:
             return None
         else:
-            # we should have caught unknown counters when we started
-            return self.check_start_config(self.start_config,
-                                           allow_unknown_counters=False)
+            # we checked the start config when we started: checking it again
+            # would also reset the start time of the round
+            return self.aggregator.collection_counters
 
     def are_dc_events_expected(self):
         '''
@@ -200,6 +200,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         to start a new collection phase
         return None if failure, otherwise json will encode result
         '''
+        # if we are still running from a previous incarnation, we need to stop
+        # first (and keep the start time and noise config of that round)
+        if self.aggregator is not None:
+            return None
+
         # keep the start config to send to the TS at the end of the collection
         # deepcopy in case we make any modifications later
         self.start_config = deepcopy(config)
@@ -214,11 +219,6 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if dc_counters is None:
             return None
 
-        # if we are still running from a previous incarnation, we need to stop
-        # first
-        if self.aggregator is not None:
-            return None
-
         # we require that only the configured share keepers be used in the
         # collection phase, because we must be able to encrypt messages to them
         expected_sk_digests = set()
-- 
2.43.0


From 72557936f84964ed9160e2777a59aaf76259e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 6/9] fix: refuse control port cookies and passwords that are
 too short

---
 privcount/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 61d7d84..7a3b939 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1477,6 +1477,7 @@ class TorControlProtocol(object):
                                 .format(secret_file,
                                         len(secret_string),
                                         min_len))
+                return None
             if len(secret_string) > max_len:
                 logging.warning("Authentication failed, file '{}' was wrong length {}, wanted at most {}"
                                 .format(secret_file,
-- 
2.43.0


From 8a66597a30d447bdc51235f1c692699647a4eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 7/9] fix: reject NaN as a float field of an event

---
 privcount/tagged_event.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/privcount/tagged_event.py b/privcount/tagged_event.py
index e6213b3..554c67f 100644
--- a/privcount/tagged_event.py
+++ b/privcount/tagged_event.py
@@ -8,6 +8,8 @@ See LICENSE for licensing information
 
 import logging
 
+from math import isnan
+
 from privcount.config import validate_ip_address
 from privcount.log import summarise_string
 
@@ -249,6 +251,11 @@ def is_float_valid(field_name, fields, event_desc,
                         .format(field_name, fields[field_name], e,
                                 event_desc))
         return False
+    if isnan(field_value):
+        # float() accepts NaN, but NaN passes every range check
+        logging.warning("Ignored {} '{}', must be a number {}"
+                        .format(field_name, fields[field_name], event_desc))
+        return False
     if min_value is not None and field_value < min_value:
         logging.warning("Ignored {} '{}', must be at least {} {}"
                         .format(field_name, field_value, min_value,
-- 
2.43.0


From 272d14970bb2c356375bd4cfe6af2336b102bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 8/9] fix: match domain suffixes of hosts that no exact list
 matches

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 5ed5937..3b964a8 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1477,7 +1477,7 @@ class Aggregator(ReconnectingClientFactory):
                 # exact matches match the first bin
                 # suffix matches match an arbitrary bin (which is ok, because
                 # the suffix lists should be disjoint)
-                if self.needs_domain_exact_match and domain_exact_match_bin is not None:
+                if self.needs_domain_exact_match and domain_exact_match_bin != float('inf'):
                     domain_suffix_match_bin = domain_exact_match_bin
                 else:
                     # check for a suffix match
-- 
2.43.0


From 85378ea01bad0e260cb1c35090c384aa95f5a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 9/9] fix: count circuits in the counters that combine activity
 and outcome

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 3b964a8..6d216ad 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2535,7 +2535,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
             # Prefix Active/Inactive Failure/Success Circuit Suffix
-            self.secure_counters.increment('{}{}Circuit{}'
+            self.secure_counters.increment('{}{}{}Circuit{}'
                                            .format(counter_prefix, activity, status, counter_suffix),
                                            bin=bin,
                                            inc=inc)
-- 
2.43.0

